"""C13 queries leave models and each other untouched."""
import copy

from symx.runner import Case
from . import common, c11, c12

ASSUMPTIONS = c12.ASSUMPTIONS + [
    'query sequences run on a small concrete model with symbolic distances, '
    'or with symbolic depths on phases whose arrivals are arbitrary '
    'functions of source depth and distance']


def snap(tm):
    """every number a result can depend on, by place"""
    out = []

    def put(o, *names):
        for n in names:
            v = getattr(o, n)
            if isinstance(v, (list, tuple)):
                out.append((n + ' length', len(v)))
                out.extend((n, x) for x in v)
            else:
                out.append((n, v))
    put(tm, 'rayParams', 'noDisconDepths', 'sourceDepth', 'sourceBranch',
        'mohoDepth', 'mohoBranch', 'cmbDepth', 'cmbBranch', 'iocbDepth',
        'iocbBranch', 'radiusOfEarth')
    for bs in tm.tauBranches:
        out.append(('branches', len(bs)))
        for b in bs:
            put(b, 'topDepth', 'botDepth', 'isPWave', 'maxRayParam',
                'minRayParam', 'minTurnRayParam', 'time', 'dist', 'tau')
    sm = tm.sMod
    put(sm, 'radiusOfEarth', 'allowInnerCoreS')
    for n in ('PLayers', 'SLayers'):
        ls = getattr(sm, n)
        out.append((n, len(ls)))
        for l in ls:
            put(l, 'topP', 'topDepth', 'botP', 'botDepth')
    out.append(('criticalDepths', len(sm.criticalDepths)))
    for c in sm.criticalDepths:
        put(c, 'depth', 'velLayerNum', 'pLayerNum', 'sLayerNum')
    for n in ('fluidLayerDepths', 'highSlownessLayerDepthsP',
              'highSlownessLayerDepthsS'):
        rs = getattr(sm, n)
        out.append((n, len(rs)))
        for r in rs:
            put(r, 'topDepth', 'botDepth', 'rayParam')
    v = sm.vMod
    put(v, 'mohoDepth', 'cmbDepth', 'iocbDepth', 'radiusOfEarth')
    out.append(('layers', len(v.layers)))
    for l in v.layers:
        put(l, 'topDepth', 'botDepth', 'topPVelocity', 'botPVelocity',
            'topSVelocity', 'botSVelocity')
    return out


def unchanged(w, what, a, b):
    w.check(what, w.all(len(a) == len(b), *[x == y for (_, x), (_, y)
                                            in zip(a, b)]))


def h_model(S, P, bx, by, **k):
    """two corrections of one model"""
    def f(w):
        m, D, prof = c11.setup(w, S, P, **k)
        c12.additive(w, m)
        with common.linear(w):
            v = m.vMod
            K = len(D) - 1
            v.mohoDepth, v.cmbDepth, v.iocbDepth = D[min(1, K - 1)], \
                D[min(2, K - 1)], D[K - 1]
            tm = w.T.TauModel.TauModel(m)
            x, y = w.real('x', 0, 20000), w.real('y', 0, 20000)
            for s, b in ((x, bx), (y, by)):
                w.assume(D[b] < s)
                w.assume(s <= D[b + 1])
            s0 = snap(tm)
            a = tm.depthCorrect(x)
            unchanged(w, 'model after one correction', s0, snap(tm))
            s1 = snap(a)
            b = tm.depthCorrect(y)
            unchanged(w, 'model after two corrections', s0, snap(tm))
            unchanged(w, 'first corrected model', s1, snap(a))
            c = tm.depthCorrect(x)
            unchanged(w, 'same depth again', s1, snap(c))
            unchanged(w, 'another depth first', snap(b),
                      snap(w.T.TauModel.TauModel(m).depthCorrect(y)))
    return f


def fresh(w):
    return copy.deepcopy(common.taumodel(w))


def model(w, tm):
    M = w.T.tau.TauPyModel
    m = M.__new__(M)
    m.verbose, m.model = False, tm
    return m


QUERIES = ('get_travel_times', 'get_pierce_points', 'get_ray_paths')


def result(got, how):
    out = []
    for a in got:
        # angles follow from these (C19)
        out += [a.name, a.puristName, a.time, a.dist, a.rayParam,
                a.sourceDepth]
        if how != QUERIES[0]:
            for t in a.getPierce() if how == QUERIES[1] else a.getPath():
                out += [t.time, t.distRadian, t.depth]
    return out


def agree(w, what, a, b):
    w.check(what, w.all(len(a) == len(b), *[x == y for x, y in zip(a, b)]))


def h_query(how, other, depths, phases, others, lo, hi):
    """a query, another one, the first one again"""
    def f(w):
        with common.linear(w):
            body(w)

    def body(w):
        tm = fresh(w)
        c12.additive(w, tm.sMod, 2.0 ** -20)
        api = model(w, tm)
        x = w.choice('depth', depths)
        y = w.choice('other depth', depths)
        d = w.real('degrees', lo, hi)
        s0 = snap(tm)
        ph = list(phases)
        first = result(getattr(api, how)(x, d, ph), how)
        w.check('phase list', ph == list(phases))
        unchanged(w, 'model after a query', s0, snap(tm))
        getattr(api, other)(y, 35.,
                            others)
        unchanged(w, 'model after two queries', s0, snap(tm))
        agree(w, 'query repeated', first,
              result(getattr(api, how)(x, d, phases), how))
        tm = fresh(w)
        c12.additive(w, tm.sMod, 2.0 ** -20)
        agree(w, 'query on a new model', first, result(getattr(
            model(w, tm), how)(x, d, phases), how))
    return f


def h_models(how, other, name, names):
    """queries for one model after those for another one; a reset stands for
    a new process"""
    rows, moho, cmb, iocb, inner = common.MODELS['upper']
    moved = [(a if a not in (40, 660) else a - 8, p + .5, s + .25 * (s > 0))
             for a, p, s in rows]
    i = [r[0] for r in moved].index(400)
    moved.insert(i, (400, 9.25, 5.))
    common.MODELS.setdefault('moved', (moved, 32, cmb, iocb, inner))

    def f(w):
        x = w.choice('depth', [0, 20., 400.])
        y = w.choice('other depth', [x, 1000.])
        d = w.real('degrees', 30, 50)
        a, b = [copy.deepcopy(common.built(w, k)) for k in ('upper', 'moved')]
        # models made from two versions of one file share a name
        a.sMod.vMod.modelName = b.sMod.vMod.modelName = name
        q = w.bool('the moved model first')
        if q:
            a, b = b, a
        if w.bool('one model'):
            a = copy.deepcopy(b)
        c = copy.deepcopy(b)
        for m in (a, b, c):
            c12.additive(w, m.sMod, 2.0 ** -20)
        with common.linear(w):
            first = result(getattr(model(w, b), how)(x, d, list(names)), how)
        w.T.reset()
        with common.linear(w):
            getattr(model(w, a), other)(y, 40., list(names))
            again = result(getattr(model(w, c), how)(x, d, list(names)), how)
        agree(w, 'query after one for another model', first, again)
        w.check('an arrival', len(first) > 0)
    return f


def h_arrivals(key, depth, name, what, lo, hi):
    """several arrivals of one phase, asked for their points one after the
    other"""
    def points(a):
        return [v for t in getattr(a, 'get' + what)()
                for v in (t.time, t.distRadian, t.depth)]

    def f(w):
        tm = copy.deepcopy(common.built(w, key))
        c12.additive(w, tm.sMod, 2.0 ** -20)
        x, y = w.real('first', lo, hi), w.real('second', lo, hi)
        with common.linear(w):
            if depth:
                tm = tm.depthCorrect(depth)
            Phase = w.T.SeismicPhase.SeismicPhase
            ph = Phase(name, tm)
            early, late = ph.calcTime(x), ph.calcTime(y)
            w.check('some', len(early) + len(late) > 0)
            n = [len(points(a)) for a in early]
            got = [points(a) for a in late]
            one = [points(a) for a in Phase(name, tm).calcTime(y)[-1:]]
            w.check('same number', len(one) == min(1, len(got)))
            for a, b in zip(one, got[-1:]):
                agree(w, 'points of an arrival after those of others', a, b)
            for a, k in zip(early, n):
                w.check('kept', len(points(a)) == k)
    return f


class phases(object):
    """Within this context a phase has one arrival, at a time and ray
    parameter that depend on its name, the source depth of its model and the
    distance; time(name, depth, degrees) can be given."""

    def __init__(self, w, time):
        self.w, self.time = w, time
        self.cls = w.T.SeismicPhase.SeismicPhase

    def __enter__(self):
        time, A, TD = self.time, self.w.T.Arrival.Arrival, \
            self.w.T.helper_classes.TimeDist

        def init(self, name, tMod):
            self.name = self.puristName = name
            self.tMod, self.sourceDepth = tMod, tMod.sourceDepth

        def calcTime(self, degrees):
            return [A(self, t, degrees * .0175, t * .5, 0, self.name,
                      self.name, self.sourceDepth, 10., 20.)
                    for t in time(self.name, self.sourceDepth, degrees)]

        def calcPierce(self, degrees):
            out = self.calcTime(degrees)
            for a in out:
                self.calcPierceFromArrival(a)
            return out

        def calcPierceFromArrival(self, a):
            a.pierce = [TD(a.rayParam, 0, 0, a.sourceDepth),
                        TD(a.rayParam, a.time, a.dist, 0)]
            return a

        def calcPath(self, degrees):
            out = self.calcTime(degrees)
            for a in out:
                self.calcPathFromArrival(a)
            return out

        def calcPathFromArrival(self, a):
            a.path = [TD(a.rayParam, 0, 0, a.sourceDepth),
                      TD(a.rayParam, a.time, a.dist, 0)]
            return a
        c = self.cls
        self.old = {}
        for n, g in (('__init__', init), ('calcTime', calcTime),
                     ('calcPierce', calcPierce), ('calcPath', calcPath),
                     ('calcPierceFromArrival', calcPierceFromArrival),
                     ('calcPathFromArrival', calcPathFromArrival)):
            self.old[n] = getattr(c, n)
            setattr(c, n, g)
        return self

    def __exit__(self, *a):
        for n, g in self.old.items():
            setattr(self.cls, n, g)
        return False


def movable(w):
    """concrete model whose correction only records the depth"""
    tm = fresh(w)
    cls = type(tm)

    class Recorded(cls):
        def depthCorrect(self, depth):
            if self.sourceDepth != 0:
                raise w.T.helper_classes.TauModelError('not at the surface')
            new = copy.copy(self)
            new.sourceDepth = depth
            return new
    tm.__class__ = Recorded
    return tm


def h_depths(kinds):
    """queries at arbitrary depths and distances"""
    def f(w):
        def time(name, depth, degrees):
            return [depth * 2.0 + degrees * 0.5 + len(name) * 1000.0]
        with phases(w, time):
            api = model(w, movable(w))
            for i, how in enumerate(kinds):
                x = w.real('depth%d' % i, 0, 700)
                d = w.real('degrees%d' % i, 0, 180)
                n = w.choice('phase%d' % i, ['P', 'SKS'])
                got = getattr(api, how)(x, d, [n])
                w.check('one arrival', len(got) == 1)
                a = got[0]
                w.check('of this query', w.all(
                    a.name == n, w.close(a.sourceDepth, x, 1e-9),
                    w.close(a.time, time(n, x, d)[0], 1e-6),
                    w.close(a.dist, d * .0175, 1e-9)))
    return f


def h_object(kind):
    """one calculator rerun for other depths and distances"""
    def f(w):
        def time(name, depth, degrees):
            return [depth * 2.0 + degrees * 0.5 + len(name) * 1000.0]
        with phases(w, time):
            mod, cls = kind
            c = getattr(getattr(w.T, mod), cls)(movable(w), ['P'], 0, 10.)
            for i in range(3):
                x = w.real('depth%d' % i, 0, 700)
                d = w.real('degrees%d' % i, 0, 180)
                n = w.choice('phase%d' % i, ['P', 'SKS'])
                c.depth, c.degrees, c.phaseList = x, d, [n]
                c.run()
                got = c.arrivals
                w.check('one arrival', len(got) == 1)
                a = got[0]
                w.check('of this query', w.all(
                    a.name == n, w.close(a.sourceDepth, x, 1e-9),
                    w.close(a.time, time(n, x, d)[0], 1e-6),
                    w.close(a.dist, d * .0175, 1e-9)))
    return f


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(name, S, P, bx, by, **k):
        out.append(Case('model-' + name, h_model(S, P, bx, by, **k),
                        split=(10, 8), secs=200,
                        bounds='branches S %s, P %s; sources in branches %d '
                        'and %d' % (S, P, bx, by)))
    S, P = [(1, 1), (2, 1)], [(1, 1), (1, 0)]
    add('same', S, P, 1, 1, order=c11.disjoint)
    add('two', S, P, 0, 1, order=c11.disjoint)
    add('two-back', S, P, 1, 0, order=c11.disjoint)
    add('fluid-shared', [(1, 1), (2, 1), (1, 0)], [(1, 1), (2, 1), (1, 0)],
        1, 1, fluid=1, shared=True, order=c11.apart)
    if not q:
        add('same-2', [(2, 1), (2, 1)], [(2, 1), (2, 0)], 1, 1,
            order=c11.disjoint)
        add('s-zone', [(1, 1), (2, 1), (2, 0)], [(1, 1), (1, 0), (1, 0)],
            1, 1, zs=(1, 6), order=c11.disjoint)
        add('p-zone', [(1, 0), (1, 0), (2, 0)], [(1, 1), (1, 1), (2, 0)],
            1, 1, zp=(1, 5), order=c11.nested)
    ds = [0., 20., 20.25, 1000.]
    for i, how in enumerate(QUERIES):
        for j, other in enumerate(QUERIES):
            out.append(Case(
                'query-%d%d' % (i, j),
                h_query(how, other, ds, ['P'], ['P', 'Pdiff'], 20, 60 if q else 90), split=(8, 6), secs=200, min_checks=10,
                bounds='source depths %s, 20 to 60 degrees' % ds))
    for i, (how, other) in enumerate(
            zip(QUERIES, QUERIES[1:] + QUERIES[:1]) if q else
            [(x, y) for x in QUERIES for y in QUERIES]):
        out.append(Case(
            'models%d' % i, h_models(how, other, 'm', [
                'P', 'P^660P', 'S660P']), split=(4, 4), secs=200,
            bounds='two models, depths 0, 20 and 400, 30 to 50 degrees'))
    for key, depth, name, lo, hi in (
            ('plain', 0, '3kmps', 10, 170), ('plain', 20., 'P', 30, 36),
            ('lvz-both', 0, 'P', 10, 14), ('upper', 0, 'Pdiff', 120, 130)):
        for what in ('Pierce', 'Path'):
            out.append(Case(
                'arrivals-%s-%s-%s' % (key, name, what),
                h_arrivals(key, depth, name, what, lo, hi),
                bounds='two distances of %s to %s degrees' % (lo, hi)))
    A, B, C = QUERIES
    for i, kinds in enumerate(([A, A, A], [B, A, B], [C, C, A], [B, C, B])):
        out.append(Case('depths%d' % i, h_depths(kinds),
                        bounds='depths 0 to 700, 0 to 180 degrees, three '
                        'queries'))
    for kind in (('TauP_Time', 'TauP_Time'), ('TauP_Pierce', 'TauP_Pierce'),
                 ('TauP_Path', 'TauP_Path')):
        out.append(Case('rerun-' + kind[1], h_object(kind),
                        bounds='depths 0 to 700, 0 to 180 degrees, three '
                        'queries on one calculator'))
    return out
