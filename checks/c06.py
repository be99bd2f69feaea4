"""C06 critical depths, low velocity zones and fluid zones."""
from symx.runner import Case
from . import common

ASSUMPTIONS = [common.REAL, 'velocity is linear in depth inside a layer',
               'slowness just below a jump that equals the smallest slowness '
               'above exactly is excluded (the zone may end there or go on)']


def apart(w, a, b):
    return w.any(a - b > 1e-6, b - a > 1e-6)


def lists(m):
    return [x for c in m.criticalDepths for x in (
        c.depth, c.velLayerNum)] + [x for q in (
            m.highSlownessLayerDepthsP, m.highSlownessLayerDepthsS,
            m.fluidLayerDepths) for z in q for x in (
                z.topDepth, z.botDepth)]


def clear(m):
    m.PLayers, m.SLayers, m.criticalDepths, m.fluidLayerDepths = \
        [], [], [], []
    m.highSlownessLayerDepthsP, m.highSlownessLayerDepthsS = [], []


def h_models(w):
    """models made one after the other do not share what is found in them; a
    reset stands for a new process"""
    rows = {'zones': [(0., 8., 4.), (128., 8., 4.), (128., 4., 2.),
                      (256., 4., 2.), (256., 8., 0.), (512., 8., 0.),
                      (512., 8., 4.), (1024., 8., 4.)],
            'plain': [(0., 4., 2.), (512., 4., 2.), (512., 8., 4.),
                      (2048., 8., 4.)],
            'fluid': [(0., 4., 2.), (1024., 4., 2.), (1024., 8., 0.),
                      (2048., 8., 0.)]}
    x, y = w.choice('first', sorted(rows)), w.choice('second', sorted(rows))
    f = w.real('faster', 1, 1.5)
    moho = w.real('moho', 64, 512)

    def make(k):
        T = w.T
        VM, VL = T.VelocityModel.VelocityModel, \
            T.VelocityLayer.VelocityLayer

        class NoRefinement(T.SlownessModel.SlownessModel):
            def distanceCheck(self):
                pass
        ls = []
        for a, b in zip(rows[k], rows[k][1:]):
            if a[0] < b[0]:
                v = [a[1] * f, b[1] * f, a[2] * f, b[2] * f, 3., 3.]
                ls.append(VL(len(ls), a[0], b[0], *v))
        R = rows[k][-1][0]
        return NoRefinement(VM(k, R, moho, R, R, 0., R, True, ls), .1, 1e5,
                            200., 10., 1e5)
    alone = lists(make(y))
    w.T.reset()
    a = make(x)
    before = lists(a)
    b = make(y)

    def eq(p, q):
        return w.all(len(p) == len(q), *[i == j for i, j in zip(p, q)])
    w.check('a model made before', eq(lists(a), before))
    w.check('a model made after another', eq(lists(b), alone))


def h(n, fluid, inner=True, sym=('p', 's'), depths=False, flat=()):
    """n velocity layers, those in fluid without S velocity"""
    def f(w):
        T = w.T
        VM, VL = T.VelocityModel.VelocityModel, T.VelocityLayer.VelocityLayer
        d = [0.]
        for i in range(n):
            if depths:
                d.append(d[-1] + w.real('h%d' % i, 1, 3000))
            else:
                d.append(2048. - (2048. / 2 ** (i + 1) if i < n - 1 else 0.))
        R = d[-1]
        vel, layers = [], []
        for i in range(n):
            v = []
            for k, base in (('p', 8.), ('s', 4.)):
                for e in 'tb':
                    if k == 's' and i in fluid:
                        v.append(0.)
                    elif k not in sym:
                        # slowness decreasing steadily
                        v.append(base)
                    elif i in flat and e == 'b':
                        # constant slowness
                        r = (R - d[i + 1]) / (R - d[i])
                        v.append(v[-1] * r)
                    else:
                        v.append(w.real('%s%s%d' % (k, e, i), 0.5, 20))
            layers.append(VL(i, d[i], d[i + 1], *(v + [3., 3.])))
            vel.append(v)
        m = common.smodel(w)
        m.vMod = VM('m', R, layers=layers)
        if inner is not True:
            m.vMod.iocbDepth = d[inner]
            m.allowInnerCoreS = False
        m.radiusOfEarth = R
        clear(m)
        # reference profiles: (top, bottom) slowness of each layer
        prof = {'p': [], 's': []}
        for i in range(n):
            pt, pb = (R - d[i]) / vel[i][0], (R - d[i + 1]) / vel[i][1]
            prof['p'].append((pt, pb))
            if i in fluid or (inner is not True and i >= inner):
                prof['s'].append((pt, pb))
            else:
                prof['s'].append(((R - d[i]) / vel[i][2],
                                  (R - d[i + 1]) / vel[i][3]))
        zones = {}
        for k in sym:
            low = prof[k][0][0]
            zs, cur = [], None
            for i, (a, b) in enumerate(prof[k]):
                # close calls are not comparable in floating point
                if i > 0:
                    o = prof[k][i - 1][1]
                    w.assume(w.any(o == a, w.all(apart(w, a, low),
                                                 apart(w, o, a))))
                w.assume(w.any(a == b, w.all(apart(w, b, low),
                                             apart(w, a, b))))
                if a > low:
                    if cur is None:
                        cur = (d[i], low)
                else:
                    if cur is not None and a < low:
                        zs.append((cur[0], d[i], cur[1]))
                        cur = None
                    low = a
                if a < b:
                    if cur is None:
                        cur = (d[i], low)
                elif b < low:
                    if cur is not None:
                        v0, v1 = (vel[i][0], vel[i][1]) if (
                            k == 'p' or prof['s'][i] is prof['p'][i] or
                            i in fluid or
                            (inner is not True and i >= inner)) else (
                            vel[i][2], vel[i][3])
                        zs.append((cur[0], (i, v0, v1), cur[1]))
                        cur = None
                    low = b
            if cur is not None:
                zs.append((cur[0], d[n], cur[1]))
            zones[k] = zs
        m.findCriticalPoints()
        # critical depths
        got = [c.depth for c in m.criticalDepths]
        w.check('starts at the surface', got[0] == 0)
        w.check('ends at the centre', got[-1] == R)
        want = [0]
        for i in range(1, n):
            conds = []
            for k in ('p', 's'):
                conds.append(prof[k][i - 1][1] != prof[k][i][0])
                for j in range(i - 1, -1, -1):
                    # last layer above with a change of slowness
                    a, b = prof[k][j]
                    conds.append(w.all(
                        (a - b) * (prof[k][i][0] - prof[k][i][1]) < 0,
                        *([prof[k][q][0] == prof[k][q][1]
                           for q in range(j + 1, i)] +
                          [prof[k][q][1] == prof[k][q + 1][0]
                           for q in range(j, i)])))
                    # or a jump before layers of constant slowness
                    if j < i - 1:
                        conds.append(w.all(
                            (b - prof[k][j + 1][0]) *
                            (prof[k][i][0] - prof[k][i][1]) < 0,
                            *([prof[k][q][0] == prof[k][q][1]
                               for q in range(j + 1, i)] +
                              [prof[k][q][1] == prof[k][q + 1][0]
                               for q in range(j + 1, i)])))
            if w.any(*conds):
                want.append(d[i])
        want.append(R)
        w.check('number of critical depths', len(got) == len(want))
        for a, b in zip(got, want):
            w.check('critical depth', a == b)
        for c in m.criticalDepths[:-1]:
            w.check('layer below it', m.vMod.layers[
                c.velLayerNum].topDepth == c.depth)
        # fluid zones
        fl, cur = [], None
        for i in range(n):
            if i in fluid:
                if cur is None:
                    cur = d[i]
            elif cur is not None:
                fl.append((cur, d[i]))
                cur = None
        if cur is not None:
            fl.append((cur, R))
        w.check('number of fluid zones', len(m.fluidLayerDepths) == len(fl))
        for z, (a, b) in zip(m.fluidLayerDepths, fl):
            w.check('fluid zone', w.all(z.topDepth == a, z.botDepth == b))
        for k in sym:
            gz = m.highSlownessLayerDepthsP if k == 'p' else \
                m.highSlownessLayerDepthsS
            w.check('number of %s zones' % k, len(gz) == len(zones[k]))
            for z, (a, b, rp) in zip(gz, zones[k]):
                w.check('top of zone', z.topDepth == a)
                w.check('smallest slowness above', w.close(z.rayParam, rp,
                                                           1e-7))
                if isinstance(b, tuple):
                    i, v0, v1 = b
                    v = v0 + (v1 - v0) * (z.botDepth - d[i]) / (
                        d[i + 1] - d[i])
                    w.check('bottom of zone', w.all(
                        d[i] - 1e-6 <= z.botDepth,
                        z.botDepth <= d[i + 1] + 1e-6,
                        w.close(R - z.botDepth, rp * v, 1e-4)))
                else:
                    w.check('bottom of zone', z.botDepth == b)
    return f


def cases(tier):
    q = tier == 'quick'
    out = [Case('p2', h(2, (), sym=('p',)), nl=True, bounds='2 layers, P'),
           Case('s2', h(2, (), sym=('s',)), nl=True, bounds='2 layers, S'),
           Case('p3', h(3, (), sym=('p',)), nl=True, split=(6, 8),
                bounds='3 layers, P'),
           Case('flat3', h(3, (), sym=('p',), flat=(1,)), nl=True,
                bounds='3 layers, P slowness constant in the second'),
           Case('s3fluid', h(3, (1,), sym=('s',)), nl=True,
                split=(6, 8), bounds='3 layers, the second fluid'),
           Case('s3inner', h(3, (1,), 2, sym=('s',)), nl=True,
                bounds='3 layers, the second fluid, no inner core S'),
           Case('ps2', h(2, (), depths=True), nl=True, split=(6, 4),
                bounds='2 layers, P and S, any depths'),
           Case('fluid4', h(4, (1, 3), sym=()), nl=True,
                bounds='two fluid layers'),
           Case('models', h_models, nl=True,
                bounds='two of three models, any speed-up and Moho')]
    if not q:
        out += [Case('sp3fluid', h(3, (1,), sym=('s', 'p')), nl=True,
                     secs=2500, split=(10, 8),
                     bounds='3 layers, the second fluid, P and S'),
                Case('p4', h(4, (), sym=('p',)), nl=True, split=(8, 8),
                     secs=2500, bounds='4 layers, P'),
                Case('s4', h(4, (2,), sym=('s',)), nl=True, split=(8, 8),
                     secs=2500, bounds='4 layers, S, the third fluid')]
    return out
