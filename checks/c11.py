"""C11 branches of a tau model: tiling, ray parameters, sums, limits."""
from symx.runner import Case
from . import common

ASSUMPTIONS = [common.REAL,
               'increments of single layers are arbitrary (decided by C09); '
               'the slowness model is one that C06 and C07 allow: slowness '
               'monotone between critical depths, every slowness at which '
               'rays turn sampled for both wave types, high slowness zones '
               'recorded']


def points(w, tag, D, shape, like=None, fluid=None):
    """Depths and slownesses of a profile through critical depths D.
    shape: per branch (layers, jumps at its bottom); like, fluid: profile
    whose values are used in that branch.  Returns depths, values,
    the first and last point of every branch."""
    d, v, ends = [D[0]], [w.real(tag + 'v0', 1, 5000)], []
    for b, (n, jumps) in enumerate(shape):
        first = len(d) - 1
        if like and b == fluid:
            a, z = like[2][b]
            v[-1] = like[1][a]
            d += like[0][a + 1:z + 1]
            v += like[1][a + 1:z + 1]
            n = 0
        for i in range(1, n):
            d.append(D[b] + (D[b + 1] - D[b]) * (i * 1.0 / n))
            v.append(w.real('%sv%d' % (tag, len(v)), 1, 5000))
        if n:
            d.append(D[b + 1])
            v.append(w.real('%sv%d' % (tag, len(v)), 1, 5000))
        ends.append((first, len(d) - 1))
        for i in range(jumps):
            d.append(D[b + 1])
            v.append(w.real('%sv%d' % (tag, len(v)), 1, 5000))
    return d, v, ends


def shaped(w, d, v, ends, zone, flat):
    """what C06 and C07 guarantee; zone: first and last point above which
    slowness is larger than before; flat: points of unchanged slowness"""
    run = [v[0]]
    for i in range(1, len(v)):
        if zone and zone[0] < i < zone[1]:
            w.assume(v[i] >= run[-1] + .0009765625)
            run.append(run[-1])
        elif zone and i == zone[1]:
            w.assume(v[i] == run[-1])
            run.append(run[-1])
        else:
            w.assume(v[i] == run[-1] if i in flat else v[i] <= run[-1] - .0009765625)
            run.append(v[i])
    for a, b in ends:
        w.assume(w.any(
            w.all(*[v[i] > v[i + 1] for i in range(a, b)]),
            w.all(*[v[i] < v[i + 1] for i in range(a, b)]),
            w.all(*[v[i] == v[i + 1] for i in range(a, b)])))
    return run


def setup(w, S, P, zs=None, zp=None, order=None, flat=(),
          fluid=None, shared=False):
    H = w.T.helper_classes
    SL = w.T.SlownessLayer.SlownessLayer
    m = common.smodel(w)
    D = [0.0]
    for i in range(len(S)):
        D.append(D[-1] + w.real('H%d' % i, 1, 2000))
    prof = {}
    for isP, shape, zone in ((False, S, zs), (True, P, zp)):
        d, v, ends = points(w, 'SP'[isP], D, shape, prof.get(False), fluid)
        prof[isP] = (d, v, ends, shaped(
            w, d, v, ends, zone, flat if isP == (order is nested) else ()), zone)
        layers = common.chain(SL, d, v)
        z = [H.DepthRange(d[zone[0]], d[zone[1]], prof[isP][3][zone[0]])] \
            if zone else []
        if isP:
            m.PLayers, m.highSlownessLayerDepthsP = layers, z
        else:
            m.SLayers, m.highSlownessLayerDepthsS = layers, z
    vs, vp = prof[False][1], prof[True][1]
    if order:
        order(w, vs, vp)
    for q in vs:
        w.assume(w.all(*[w.not_(w.any(w.all(a < q, q < b), w.all(
            b < q, q < a))) for a, b in zip(vp, vp[1:])]))
    if shared:
        # one layer object for both wave types, as sampling leaves them
        ps, ss = prof[True][2][fluid], prof[False][2][fluid]
        m.PLayers[ps[0]:ps[1]] = m.SLayers[ss[0]:ss[1]]
    m.radiusOfEarth = D[-1]
    m.criticalDepths = [H.CriticalDepth(x, 0, 0, 0) for x in D]
    m.fixCriticalPoints()
    m.fluidLayerDepths = [] if fluid is None else [
        H.DepthRange(D[fluid], D[fluid + 1])]
    return m, D, prof


def h_model(S, P, zs=None, zp=None, order=None, flat=()):
    def f(w):
        m, D, prof = setup(w, S, P, zs, zp, order, flat)
        inc = common.increments(w, m, P, S)
        tm = w.T.TauModel.TauModel(m)
        vs = prof[False][1]
        want = [vs[0]]
        for v in vs[1:]:
            if v < want[-1]:
                want.append(v)
        got = tm.rayParams
        w.check('number of ray parameters', len(got) == len(want))
        w.check('ray parameters are the new minima of the S slownesses',
                w.all(*[a == b for a, b in zip(got, want)]))
        w.check('wave types', len(tm.tauBranches) == 2)
        w.check('depths of branches', w.all(*[
            a == b for a, b in zip(tm.getBranchDepths(), D[:-1])]))
        for isP in (True, False):
            d, v, ends, run, zone = prof[isP]
            n = len(d) - 1
            w.check('number of branches',
                    len(tm.tauBranches[0 if isP else 1]) == len(D) - 1)
            for b in range(len(D) - 1):
                br = tm.getTauBranch(b, isP)
                w.check('from critical depth to critical depth', w.all(
                    br.topDepth == D[b], br.botDepth == D[b + 1]))
                w.check('wave type', bool(br.isPWave) == isP)
                first, last = ends[b]
                w.check('largest ray parameter that enters',
                        br.maxRayParam == run[first])
                w.check('smallest that turns',
                        br.minTurnRayParam == run[last])
                below = ends[b + 1][0] if b + 1 < len(ends) else last
                low = run[last]
                if not (zone and zone[0] <= below < zone[1]):
                    low = w.min(low, v[below])
                w.check('smallest that turns or reflects',
                        br.minRayParam == low)
                w.check('one value per ray parameter', w.all(
                    len(br.time) == len(got), len(br.dist) == len(got),
                    len(br.tau) == len(got)))
                for j, p in enumerate(want):
                    t, x = 0.0, 0.0
                    if p <= run[first]:
                        for i in range(first, last):
                            if p > v[i] or p > v[i + 1]:
                                break
                            dt, dx = inc(isP, i, p)
                            t, x = t + dt, x + dx
                    w.check('time of the layers above the turning point',
                            w.close(br.time[j], t, 1e-7))
                    w.check('distance of the layers above the turning point',
                            w.close(br.dist[j], x, 1e-9))
                    w.check('tau', w.close(br.tau[j], t - p * x, 1e-5))
    return f


def disjoint(w, vs, vp):
    # all S slownesses larger than all P slownesses or equal to the last
    for q in vs:
        w.assume(q >= vp[0])


def nested(w, vs, vp):
    """P profile begins between the first S samples and ends with them"""
    w.assume(w.all(vp[0] <= vs[0], vp[0] >= vs[min(2, len(vs) - 1)],
                   vp[-1] == vs[-1]))


def apart(w, vs, vp):
    """P slownesses among the S samples"""
    for q in vp:
        w.assume(w.any(*[q == s for s in vs]))


def h_bounds(n):
    """Moho, core-mantle and inner-core boundary branches"""
    def f(w):
        def order(w, vs, vp):
            for i, (a, b) in enumerate(zip(vs, vp)):
                w.assume(w.all(a == 1000. - i, b == 500. - i))
        m, D, prof = setup(w, [(1, 1)] * n, [(1, 1)] * n, order=order)
        common.increments(w, m, None, None)
        v = m.vMod
        which = w.choice('which', ['moho', 'cmb', 'iocb'])
        x = w.real('x', -10, 2000 * n + 50)
        v.mohoDepth = v.cmbDepth = v.iocbDepth = 0.0
        setattr(v, which + 'Depth', x)
        tm = w.T.TauModel.TauModel(m)
        k = getattr(tm, which + 'Branch')
        w.check('a branch', 0 <= k < n)
        w.check('closest to the nominal depth', w.all(*[
            abs(D[k] - x) <= abs(D[i] - x) for i in range(n)]))
        w.check('depth of this branch',
                getattr(tm, which + 'Depth') == D[k])
        for o in ('moho', 'cmb', 'iocb'):
            if o != which:
                w.check('the others at the surface',
                        getattr(tm, o + 'Branch') == 0)
        w.check('radius', tm.radiusOfEarth == m.radiusOfEarth)
        w.check('surface source', w.all(tm.sourceDepth == 0,
                                        tm.sourceBranch == 0))
        # branch containing a depth
        y = w.real('y', 0, 2000 * n + 50)
        ex, b = common.raises(tm.findBranch, y)
        w.check('depths below the centre are in no branch',
                w.iff(ex, y > D[-1]))
        if ex:
            w.check('model error', isinstance(
                b, w.T.helper_classes.TauModelError))
        else:
            w.check('branch with this depth at its top or inside', w.any(
                w.all(D[b] <= y, y < D[b + 1]),
                w.all(b == n - 1, y == D[n])))
    return f


def h_turn(n):
    """a ray parameter that turns strictly inside a layer is rejected"""
    def f(w):
        def order(w, vs, vp):
            for q in vs:
                w.assume(q >= 2000.)
            for q in vp:
                w.assume(q <= 1999.)
        m, D, prof = setup(w, [(1, 1)], [(n, 0)], order=order)
        # ray parameters of the model are those of S: give it one inside P
        H = w.T.helper_classes
        inc = common.increments(w, m, None, None)
        p = w.real('p', 1, 5000)
        d, v = prof[True][:2]
        br = w.T.TauBranch.TauBranch(D[0], D[1], True)
        ex, r = common.raises(br.createBranch, m, v[0], [p])
        bad = w.any(*[w.any(w.all(a < p, p < b), w.all(b < p, p < a))
                      for a, b in zip(v, v[1:])])
        w.check('turning inside a layer is rejected', w.iff(ex, w.all(
            bad, p <= v[0])))
        if ex:
            w.check('model error', isinstance(r, H.SlownessModelError))
    return f


def cases(tier):
    out = []
    B = 'branches given as (layers, jumps below); zones by sample numbers; '

    def add(name, S, P, **k):
        o = k.get('order')
        out.append(Case(
            'model-' + name, h_model(S, P, **k),
            bounds=B + 'S %s, P %s, S zone %s, P zone %s' % (
                S, P, k.get('zs'), k.get('zp')),
            split=(8, 6) if o is not disjoint else None, secs=120))

    add('s-plain', [(2, 0), (2, 0)], [(1, 0), (1, 0)], order=disjoint)
    add('s-jump', [(2, 1), (1, 2), (1, 0)], [(1, 1), (1, 0), (1, 1)],
        order=disjoint)
    add('s-flat', [(1, 1), (2, 1)], [(1, 1), (1, 0)], flat=(2, 3, 4),
        order=disjoint)
    add('p-flat', [(2, 0), (2, 0)], [(2, 0), (1, 0)], flat=(3,),
        order=nested)
    add('s-zone', [(1, 1), (1, 1), (2, 1)], [(1, 0), (1, 0), (1, 0)],
        zs=(1, 5), order=disjoint)
    add('s-zone2', [(2, 0), (1, 0), (3, 1)], [(1, 0), (1, 0), (1, 0)],
        zs=(2, 5), order=disjoint)
    add('p-plain', [(3, 0)], [(2, 0)], order=nested)
    add('p-jump', [(2, 0), (2, 0)], [(2, 1), (1, 0)], order=nested)
    add('p-zone', [(1, 0), (1, 0), (2, 0)], [(1, 1), (1, 1), (2, 0)],
        zp=(1, 5), order=nested)
    out.append(Case('boundaries', h_bounds(3), bounds='3 branches'))
    out.append(Case('turn', h_turn(3), bounds='one branch of 3 layers'))
    return out
