"""C12 correcting a model for a source at depth."""
from symx.runner import Case
from . import common, c11

ASSUMPTIONS = c11.ASSUMPTIONS + [
    'slowness inside a layer varies linearly with depth instead of by the '
    'power law (same interface properties, C10); increments of a layer are '
    'additive in depth, as the real ones are']


def additive(w, m, scale=1.0):
    """layer increments that depend on the depths the layer spans only, so
    that they survive splitting; instances are deep-copied by the code, hence
    a method of a subclass"""
    TD = w.T.helper_classes.TimeDist
    R = type(m)

    class Additive(R):
        def layerTimeDist(self, sphericalRayParam, layerNum, isPWave):
            sl = self.getSlownessLayer(layerNum, isPWave)
            return TD(sphericalRayParam, *inc(
                isPWave, sl.topDepth, sl.botDepth, sphericalRayParam))
    m.__class__ = Additive

    def inc(isP, top, bot, p):
        h = (bot - top) * scale
        return (h * (2.0 if isP else 4.0) + h * p * 0.25,
                h * (0.5 if isP else 1.0) + h * p * 0.125)
    return inc


def same(w, a, b):
    """equal branches"""
    return w.all(a.topDepth == b.topDepth, a.botDepth == b.botDepth,
                 a.maxRayParam == b.maxRayParam,
                 a.minRayParam == b.minRayParam,
                 a.minTurnRayParam == b.minTurnRayParam,
                 bool(a.isPWave) == bool(b.isPWave),
                 len(a.time) == len(b.time), len(a.dist) == len(b.dist),
                 len(a.tau) == len(b.tau),
                 *[x == y for x, y in zip(a.time, b.time)],
                 *[x == y for x, y in zip(a.dist, b.dist)],
                 *[x == y for x, y in zip(a.tau, b.tau)])


def tables(w, sm, D, extra):
    """layers contiguous from the surface down, aligned with the critical
    depths, a boundary at every depth in extra"""
    ok = []
    for isP in (True, False):
        ls = sm.PLayers if isP else sm.SLayers
        ok += [ls[0].topDepth == 0, ls[-1].botDepth == D[-1]]
        for a, b in zip(ls, ls[1:]):
            ok += [a.botDepth == b.topDepth, a.botP == b.topP]
        for l in ls:
            ok.append(l.topDepth <= l.botDepth)
        for y in extra:
            ok.append(w.any(*[l.botDepth == y for l in ls]))
        ok.append(len(sm.criticalDepths) == len(D))
        for cd, y in zip(sm.criticalDepths, D):
            n = cd.pLayerNum if isP else cd.sLayerNum
            ok.append(cd.depth == y)
            ok.append(0 <= n <= len(ls))
            if n < len(ls):
                ok += [ls[n].topDepth == y, ls[n].botDepth > y]
            else:
                ok.append(ls[-1].botDepth == y)
    return w.all(*ok)


def h(S, P, zs=None, zp=None, order=None, flat=(), fluid=None, shared=False,
      branch=None):
    def f(w):
        m, D, prof = c11.setup(w, S, P, zs, zp, order, flat, fluid,
                              shared)
        inc = additive(w, m)
        with common.linear(w):
            body(w, m, D, prof, inc, branch)
    return f


def body(w, m, D, prof, inc, branch):
    v = m.vMod
    K = len(D) - 1
    v.mohoDepth, v.cmbDepth, v.iocbDepth = D[min(1, K - 1)], \
        D[min(2, K - 1)], D[K - 1]
    tm = w.T.TauModel.TauModel(m)
    x = w.real('source', 0, 20000)
    if branch is not None:
        w.assume(w.all(D[branch] <= x, x < D[branch + 1]))
    ex, new = common.raises(tm.depthCorrect, x)
    w.check('sources outside the Earth are rejected',
            w.iff(ex, x > m.radiusOfEarth) if branch is None else not ex)
    if ex:
        w.check('model error', isinstance(
            new, w.T.helper_classes.TauModelError))
        return
    w.check('another model', new is not tm)
    at = None
    for y in D:
        if abs(x - y) < 1e-6:
            at = y
    n = len(tm.rayParams)
    w.check('ray parameters', w.all(
        len(new.rayParams) == n,
        *[a == b for a, b in zip(tm.rayParams, new.rayParams)]))
    w.check('radius', new.radiusOfEarth == tm.radiusOfEarth)
    sb = new.sourceBranch
    if at is not None:
        w.check('source depth', new.sourceDepth == at)
        w.check('source branch', w.any(
            new.tauBranches[0][sb].topDepth == at,
            w.all(at == D[-1], sb == K - 1)))
        w.check('on a boundary nothing else changes', w.all(*[
            same(w, a, b) for i in (0, 1) for a, b in zip(
                tm.tauBranches[i], new.tauBranches[i])]))
        w.check('branches', w.all(len(new.tauBranches[0]) == K,
                                  len(new.tauBranches[1]) == K))
        w.check('no artificial boundary', len(new.noDisconDepths) == 0)
        w.check('layer tables', tables(w, new.sMod, D, ()))
        shift = 0
    else:
        w.check('source depth', new.sourceDepth == x)
        w.check('artificial boundary', w.all(
            len(new.noDisconDepths) == 1, new.noDisconDepths[0] == x))
        b = [i for i in range(K) if D[i] < x and x < D[i + 1]][0]
        w.check('source branch', sb == b + 1)
        w.check('layer tables', tables(w, new.sMod, D, (x,)))
        for i, isP in ((0, True), (1, False)):
            d, vals, ends, run, zone = prof[isP]
            old, now = tm.tauBranches[i], new.tauBranches[i]
            w.check('one more branch', len(now) == K + 1)
            w.check('other branches unchanged', w.all(*[
                same(w, old[k], now[k] if k < b else now[k + 1])
                for k in range(K) if k != b]))
            o, t, u = old[b], now[b], now[b + 1]
            w.check('the two parts', w.all(
                t.topDepth == o.topDepth, t.botDepth == x, u.topDepth == x,
                u.botDepth == o.botDepth, bool(t.isPWave) == isP,
                bool(u.isPWave) == isP, t.maxRayParam == o.maxRayParam,
                u.minTurnRayParam == o.minTurnRayParam,
                u.minRayParam == o.minRayParam))
            # slowness at the source
            first, last = ends[b]
            k = [j for j in range(first, last) if d[j] < x
                 and x <= d[j + 1]][0]
            here = vals[k + 1] if x == d[k + 1] else \
                vals[k] + (vals[k + 1] - vals[k]) * (x - d[k]) / (
                    d[k + 1] - d[k])
            low = w.min(run[k], here)
            slack = 0.01
            w.check('smallest ray parameters of the upper part', w.all(
                w.close(t.minTurnRayParam, low, slack),
                w.close(t.minRayParam, low, slack)))
            w.check('largest ray parameter of the lower part',
                    u.maxRayParam == t.minRayParam)
            w.check('values', w.all(*[len(getattr(q, a)) == n for q in (t, u)
                                      for a in ('time', 'dist', 'tau')]))
            for j, p in enumerate(tm.rayParams):
                T = X = 0.0
                if p <= run[first]:
                    for g in range(first, k + 1):
                        if p > vals[g] or p > vals[g + 1]:
                            break
                        dt, dx = inc(isP, d[g], d[g + 1] if g < k else x, p)
                        T, X = T + dt, X + dx
                w.check('upper part sums the layers above the source', w.all(
                    w.close(t.time[j], T, .1), w.close(t.dist[j], X, .1),
                    w.close(t.tau[j], T - p * X, 100)))
                w.check('parts add up to the branch', w.all(
                    w.close(t.time[j] + u.time[j], o.time[j], 1e-2),
                    w.close(t.dist[j] + u.dist[j], o.dist[j], 1e-2),
                    w.close(t.tau[j] + u.tau[j], o.tau[j], 10)))
        shift = x
    for k in ('moho', 'cmb', 'iocb'):
        y = getattr(tm, k + 'Depth')
        w.check('boundary depths', getattr(new, k + 'Depth') == y)
        w.check('boundary branches',
                new.tauBranches[0][getattr(new, k + 'Branch')].topDepth == y)
    # the loaded model is as it was
    w.check('original model', w.all(
        tm.sourceDepth == 0, tm.sourceBranch == 0,
        len(tm.noDisconDepths) == 0, tm.sMod is m,
        *[len(q) == K for q in tm.tauBranches]))
    w.check('original layers', tables(w, m, D, ()))
    if at is None:
        ex, e = common.raises(new.depthCorrect, x)
        w.check('only surface models are corrected', w.iff(ex, x > 0))


def cases(tier):
    out = []
    B = 'branches given as (layers, jumps below); zones by sample numbers; '

    def add(name, S, P, split=(10, 8), secs=300, **k):
        out.append(Case(
            'split-' + name, h(S, P, **k),
            bounds=B + 'S %s, P %s, %s' % (S, P, {
                a: b for a, b in k.items() if a != 'order'}),
            split=split, secs=secs))
    add('plain', [(2, 0), (1, 1)], [(1, 0), (1, 0)], order=c11.disjoint)
    add('jump', [(1, 1), (2, 2)], [(1, 1), (2, 1)], order=c11.disjoint)
    add('s-zone', [(1, 1), (2, 1), (2, 0)], [(1, 1), (1, 0), (1, 0)],
        zs=(1, 6), order=c11.disjoint)
    add('p-zone', [(1, 0), (1, 0), (2, 0)], [(1, 1), (1, 1), (2, 0)],
        zp=(1, 5), order=c11.nested)
    add('core', [(1, 1)] * 4, [(1, 1)] * 4, order=c11.disjoint)
    add('nested', [(2, 0), (2, 0)], [(2, 1), (1, 0)], order=c11.nested)
    add('fluid', [(2, 1), (2, 1), (1, 0)], [(1, 1), (2, 1), (1, 0)],
        fluid=1, order=c11.apart)
    add('fluid-shared', [(1, 1), (2, 1), (1, 0)], [(1, 1), (2, 1), (1, 0)],
        fluid=1, shared=True, order=c11.apart)
    # a correction to another depth before
    from . import c13
    S, P = [(1, 1), (2, 1)], [(1, 1), (1, 0)]
    for n, bx, by in (('', 0, 1), ('-back', 1, 0), ('-same', 1, 1)):
        out.append(Case('after' + n, c13.h_model(
            S, P, bx, by, order=c11.disjoint), split=(10, 8), secs=200,
            bounds=B + 'S %s, P %s; sources in branches %d and %d' % (
                S, P, bx, by)))
    return out
