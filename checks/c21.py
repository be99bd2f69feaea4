"""C21 ray paths are continuous and consistent with the model."""
from symx.runner import Case
from . import common
from .c11 import setup, disjoint, nested
from .c20 import LAYOUTS, NAMES

ASSUMPTIONS = [
    common.REAL,
    'increments of single layers are arbitrary (C09); the depth of a '
    'slowness inside a layer is a linear law with the properties C10 decides',
    'slowness models as in C11; the ray parameter is apart from the samples '
    'it does not equal by 1e-3 s/rad',
    'assembly: layouts as in C20, paths of single branches arbitrary, zero '
    'to three points']


class increments(object):
    """within this context a part of a layer has increments that tell its
    four ends and the ray parameter apart"""

    def __init__(self, w):
        self.cls = w.T.SlownessLayer.SlownessLayer
        self.TD = w.T.helper_classes.TimeDist

    def of(self, topP, topDepth, botP, botDepth, p):
        s = topP * .125 + topDepth * .0625 + botP * .03125 + \
            botDepth * .0078125 + p * .001953125
        return 1 + s, .5 + s * .125

    def __enter__(self):
        self.old = self.cls.bullenRadialSlowness
        of, TD = self.of, self.TD

        def bullenRadialSlowness(self, p, radiusOfEarth):
            if self.topDepth == self.botDepth:
                out = TD(p, 0.0, 0.0)
                out.nothing = True
                return out
            return TD(p, *of(self.topP, self.topDepth, self.botP,
                             self.botDepth, p))
        self.cls.bullenRadialSlowness = bullenRadialSlowness
        return self

    def __exit__(self, *a):
        self.cls.bullenRadialSlowness = self.old
        return False


def h_branch(S, P, zs=None, zp=None, order=None, flat=()):
    def f(w):
        m, D, prof = setup(w, S, P, zs, zp, order, flat)
        inc = common.increments(w, m, P, S)
        tm = w.T.TauModel.TauModel(m)
        with increments(w) as part, common.linear(w):
            isP = w.choice('wave', [True, False])
            b = w.choice('branch', list(range(len(D) - 1)))
            d, v, ends, run, zone = prof[isP]
            first, last = ends[b]
            p = w.real('p', .0009765625, 5000)
            for x in v:
                w.assume(w.any(p >= x + .0009765625, p <= x - .0009765625,
                               p == x))
            for x, y in zip(v[first:last], v[first + 1:last + 1]):
                # horizontal throughout the layer: an error (C09)
                w.assume(w.not_(w.all(p == x, p == y)))
            br = tm.getTauBranch(b, isP)
            down = br.path(p, True, m)
            up = br.path(p, False, m)
            if p > run[first]:
                w.check('no path below the turning point',
                        not down and not up)
                return
            want = []       # depth above, depth reached, time, distance
            for i in range(first, last):
                if v[i] >= p and v[i + 1] >= p:
                    t, x = inc(isP, i, p)
                    want.append((d[i], d[i + 1], t, x))
                elif v[i] > p:
                    y = d[i] + (d[i + 1] - d[i]) * (p - v[i]) / (
                        v[i + 1] - v[i])
                    t, x = part.of(v[i], d[i], p, y, p)
                    want.append((d[i], y, t, x))
                    break
                else:
                    break
            # turning at the top of a layer: that point may be given twice
            down = [g for g in down if not hasattr(g, 'nothing')]
            up = [g for g in up if not hasattr(g, 'nothing')]
            w.check('each layer once', w.all(len(down) == len(want),
                                             len(up) == len(want)))
            for got, ws, end in ((down, want, 1), (up, want[::-1], 0)):
                w.check('depths', w.all(*[
                    w.close(g.depth, e[end], 1e-6)
                    for g, e in zip(got, ws)]))
                w.check('times', w.all(*[w.close(g.time, e[2], 1e-7)
                                         for g, e in zip(got, ws)]))
                w.check('distances', w.all(*[
                    w.close(g.distRadian, e[3], 1e-9)
                    for g, e in zip(got, ws)]))
                w.check('ray parameter', w.all(*[g.p == p for g in got]))
    return f


def h_assembly(key, depth, name):
    def f(w):
        tm = common.built(w, key)
        if depth:
            tm = tm.depthCorrect(depth)
        ex, ph = common.raises(w.T.SeismicPhase.SeismicPhase, name, tm)
        if ex or not len(ph.rayParams):
            w.check('nothing to trace', True)
            return
        TD = w.T.helper_classes.TimeDist
        B = w.T.TauBranch.TauBranch
        n = len(ph.rayParams)
        k = w.choice('segment', sorted(set([0, (n - 1) // 2, n - 2])))
        p = w.real('p', ph.rayParams[k + 1], ph.rayParams[k])
        t, x = w.real('t', 0, 9000), w.real('x', 0, 20)
        A = w.T.Arrival.Arrival
        arr = A(ph, t, x, p, k, ph.name, ph.puristName, ph.sourceDepth, 0., 0.)
        shape = w.choice('points', [1, 2, 3])
        where = {}
        for w_, bs in enumerate(tm.tauBranches):
            for j, b in enumerate(bs):
                where[id(b)] = (w_, j)
        asked = []
        rows = {}

        def rowsfor(i, j, down):
            """path of branch j of wave type i"""
            key = (i, j, down)
            if key not in rows:
                # every third branch none
                c = (i + 2 * j + shape) % 4
                out = []
                for q in range(c):
                    s = '%d_%d_%s_%d' % (i, j, 'ud'[down], q)
                    out.append((w.real('pt' + s, 0, 500),
                                w.real('px' + s, 0, 1),
                                w.real('py' + s, 0, 6000)))
                rows[key] = out
            return rows[key]

        def path(self, rayParam, downgoing, sMod):
            asked.append(where.get(id(self)))
            r = rowsfor(where[id(self)][0], where[id(self)][1],
                        bool(downgoing))
            w.check('ray parameter of the arrival', rayParam == p)
            w.check('slowness model', sMod is tm.sMod)
            return [TD(p, *q) for q in r] or None
        old = B.path
        B.path = path
        try:
            got = ph.calcPathFromArrival(arr)
        finally:
            B.path = old
        w.check('same arrival', got is arr)
        T = X = 0.0
        want = [(T, X, tm.sourceDepth)]
        head = len(ph.headOrDiffractSeq)
        extra = (x - ph.dist[0]) / head if head else 0
        for j, (b, isP, down) in enumerate(zip(
                ph.branchSeq, ph.waveType, ph.downGoing)):
            for q in rowsfor(0 if isP else 1, b, bool(down)):
                T, X = T + q[0], X + q[1]
                want.append((T, X, q[2]))
            if j in ph.headOrDiffractSeq:
                T, X = T + extra * p, X + extra
                want.append((T, X, tm.cmbDepth if 'diff' in ph.name
                             else tm.mohoDepth))
        pts = arr.path
        w.check('number of points', len(pts) == len(want))
        w.check('depths in order', w.all(*[
            w.close(a.depth, e[2], 1e-9) for a, e in zip(pts, want)]))
        w.check('times', w.all(*[w.close(a.time, e[0], 1e-6)
                                 for a, e in zip(pts, want)]))
        w.check('distances', w.all(*[w.close(a.distRadian, e[1], 1e-9)
                                     for a, e in zip(pts, want)]))
        w.check('ray parameter', w.all(*[a.p == p for a in pts]))
        w.check('points are separate objects',
                len(set(id(a) for a in pts)) == len(pts))
    return f


def cases(tier):
    out = []
    B = 'branches given as (layers, jumps below); zones by sample numbers; '

    def add(name, S, P, **k):
        o = k.get('order')
        out.append(Case(
            'branch-' + name, h_branch(S, P, **k),
            bounds=B + 'S %s, P %s, S zone %s, P zone %s' % (
                S, P, k.get('zs'), k.get('zp')),
            split=(8, 6) if o is not disjoint else None, secs=120))
    add('s-plain', [(2, 0), (2, 0)], [(1, 0), (1, 0)], order=disjoint)
    add('s-jump', [(2, 1), (1, 2), (1, 0)], [(1, 1), (1, 0), (1, 1)],
        order=disjoint)
    add('s-flat', [(1, 1), (2, 1)], [(1, 1), (1, 0)], flat=(2, 3, 4),
        order=disjoint)
    add('p-flat', [(2, 0), (2, 0)], [(2, 0), (1, 0)], flat=(3,),
        order=nested)
    add('s-zone', [(1, 1), (1, 1), (2, 1)], [(1, 0), (1, 0), (1, 0)],
        zs=(1, 5), order=disjoint)
    add('s-zone2', [(2, 0), (1, 0), (3, 1)], [(1, 0), (1, 0), (1, 0)],
        zs=(2, 5), order=disjoint)
    add('p-plain', [(3, 0)], [(2, 0)], order=nested)
    add('p-jump', [(2, 0), (2, 0)], [(2, 1), (1, 0)], order=nested)
    add('p-zone', [(1, 0), (1, 0), (2, 0)], [(1, 1), (1, 1), (2, 0)],
        zp=(1, 5), order=nested)
    q = tier == 'quick'
    for key, depth in sorted(LAYOUTS):
        for n in LAYOUTS[key, depth] if q else NAMES:
            out.append(Case('path-%s-%d-%s' % (key, depth, n),
                            h_assembly(key, depth, n), min_paths=1, nl=True,
                            bounds='layout %s, source at %s km, up to three '
                            'points per branch' % (key, depth)))
    from . import c13
    for key, depth, name, lo, hi in (
            ('plain', 0, '3kmps', 10, 170), ('plain', 20., 'P', 30, 36),
            ('lvz-both', 0, 'P', 10, 14), ('upper', 0, 'Pdiff', 120, 130)):
        out.append(Case('arrivals-%s-%s' % (key, name), c13.h_arrivals(
            key, depth, name, 'Path', lo, hi),
            bounds='two distances of %s to %s degrees' % (lo, hi)))
    return out
