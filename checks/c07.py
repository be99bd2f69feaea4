"""C07 slowness sampling."""
import math
from symx.runner import Case
from . import common

ASSUMPTIONS = [
    common.REAL, 'velocity is linear in depth inside a layer',
    'the S slowness jump below a fluid into a slower solid is exempt from '
    'P/S consistency: no S-type ray can turn or reflect there',
    'slownesses closer than 1e-6 to each other without being equal are '
    'excluded',
    'distanceCheck is run with opaque travel-time curves in place of '
    'approxDistance and bullenRadialSlowness (which C09 covers)']


def vels(w, n, fluid, sym, base=(8., 4.)):
    out = []
    for i in range(n):
        v = []
        for k, b in zip('ps', base):
            for e in 'tb':
                if k == 's' and i in fluid:
                    v.append(0.)
                elif '%s%s%d' % (k, e, i) in sym:
                    v.append(w.real('%s%s%d' % (k, e, i), 1, 20))
                else:
                    # powers of two: slowness is exact in floating point
                    v.append(b * 2. ** min(i, 1))
        out.append(v)
    return out


def model(w, n, fluid=(), sym=(), inner=True, base=(8., 4.), given=None):
    T = w.T
    VM, VL = T.VelocityModel.VelocityModel, T.VelocityLayer.VelocityLayer
    d = [1024. * i for i in range(n + 1)]
    R = d[-1]
    vel = given or vels(w, n, fluid, sym, base)
    m = common.smodel(w)
    m.vMod = VM('m', R, 0., R, R, 0., R, True, [
        VL(i, d[i], d[i + 1], *(vel[i] + [3., 3.])) for i in range(n)])
    m.allowInnerCoreS = True
    if inner is not True:
        m.allowInnerCoreS = False
        m.vMod.iocbDepth = d[inner]
    m.radiusOfEarth = R
    m.PLayers, m.SLayers = [], []
    m.criticalDepths = []
    m.highSlownessLayerDepthsP, m.highSlownessLayerDepthsS = [], []
    DR = T.helper_classes.DepthRange
    m.fluidLayerDepths = []
    for i in sorted(fluid):
        f = m.fluidLayerDepths
        if f and f[-1].botDepth == d[i]:
            f[-1] = DR(f[-1].topDepth, d[i + 1])
        else:
            f.append(DR(d[i], d[i + 1]))
    return m, d, vel


def asP(i, fluid, inner):
    return i in fluid or (inner is not True and i >= inner)


def profile(d, vel, fluid, inner):
    """(top, bottom) slowness per velocity layer for P and for S"""
    R = d[-1]
    out = {True: [], False: []}
    for i, v in enumerate(vel):
        p = ((R - d[i]) / v[0], (R - d[i + 1]) / v[1])
        out[True].append(p)
        out[False].append(p if asP(i, fluid, inner) else (
            (R - d[i]) / v[2], (R - d[i + 1]) / v[3]))
    return out


def assume_apart(w, prof):
    ps = [x for k in prof for t in prof[k] for x in t]
    for i, a in enumerate(ps):
        for b in ps[:i]:
            if a is not b:
                w.assume(w.any(a == b, a - b > 1e-5, b - a > 1e-5))


def invariants(w, m, d, vel, fluid, inner):
    """layers of both wave types cover the model and follow it"""
    R = d[-1]
    for isP in (True, False):
        L = m.PLayers if isP else m.SLayers
        n = 'P' if isP else 'S'
        w.check('%s starts at the surface' % n, L[0].topDepth == 0)
        w.check('%s ends at the centre' % n, L[-1].botDepth == R)
        w.check('%s contiguous' % n, w.all(*[
            w.all(a.botDepth == b.topDepth, a.botP == b.topP)
            for a, b in zip(L, L[1:])]))
        w.check('%s no negative thickness' % n, w.all(*[
            a.topDepth <= a.botDepth for a in L]))
        ends = [l.botDepth for l in L]
        for i in range(len(d) - 1):
            w.check('%s layer edge is sampled' % n, w.any(
                *[e == d[i + 1] for e in ends]))
        for l in L:
            # the velocity layer it belongs to
            thick = l.topDepth < l.botDepth
            if thick:
                k = [i for i in range(len(d) - 1)
                     if bool(d[i] <= l.topDepth) and
                     bool(l.botDepth <= d[i + 1])]
                w.check('%s in one velocity layer' % n, len(k) == 1)
                i = k[0]
                o = 0 if isP or asP(i, fluid, inner) else 2
                for z, p in ((l.topDepth, l.topP), (l.botDepth, l.botP)):
                    v = vel[i][o] + (vel[i][o + 1] - vel[i][o]) * (
                        z - d[i]) / (d[i + 1] - d[i])
                    w.check('%s slowness of the model' % n,
                            w.close(p * v, R - z, 1e-4))


def jumps(w, m, d, prof, fluid):
    """a jump of P or S is a zero thickness layer in both profiles"""
    for i in range(1, len(d) - 1):
        jump = w.any(*[prof[k][i - 1][1] != prof[k][i][0] for k in prof])
        for isP in (True, False):
            L = m.PLayers if isP else m.SLayers
            z = [l for l in L if bool(l.topDepth == l.botDepth)
                 and bool(l.topDepth == d[i])]
            w.check('zero thickness layers at jumps',
                    w.implies(jump, len(z) > 0))
            if (i in fluid) == (i - 1 in fluid):
                w.check('no other zero thickness layers',
                        w.implies(len(z) > 0, jump))
            if z:
                w.check('spans the jump', w.all(
                    z[0].topP == prof[isP][i - 1][1],
                    z[-1].botP == prof[isP][i][0]))


def exempt(d, l, fluid, inner):
    """S jump from a fluid to a slower solid"""
    return [i for i in range(1, len(d) - 1) if i - 1 in fluid and
            not asP(i, fluid, inner) and bool(l.topDepth == l.botDepth) and
            bool(l.topDepth == d[i]) and bool(l.topP <= l.botP)]


def sampled(w, label, p, L, d, fluid, inner, isP, solid=False):
    """p does not lie strictly inside a layer"""
    cs = []
    for l in L:
        if not isP and exempt(d, l, fluid, inner):
            continue
        if solid and not isP:
            if any(asP(i, fluid, inner) and
                   bool(d[i] <= l.topDepth) and bool(l.botDepth <= d[i + 1])
                   for i in range(len(d) - 1)):
                continue
        cs.append((l.topP - p) * (p - l.botP) <= 0)
    w.check(label, w.all(*cs))


def h_coarse(n, sym, fluid=(), inner=True, base=(8., 4.)):
    def f(w):
        m, d, vel = model(w, n, fluid, sym, inner, base)
        prof = profile(d, vel, fluid, inner)
        assume_apart(w, prof)
        m.coarseSample()
        invariants(w, m, d, vel, fluid, inner)
        jumps(w, m, d, prof, fluid)
        for i in range(n):
            for isP in (True, False):
                for p in prof[isP][i]:
                    sampled(w, 'edge of %s in %s' % (
                        'PS'[not isP], 'SP'[not isP]), p,
                        m.SLayers if isP else m.PLayers, d, fluid, inner,
                        not isP, solid=True)
            if asP(i, fluid, inner):
                inside = [l for l in m.PLayers if bool(l.topDepth >= d[i])
                          and bool(l.botDepth <= d[i + 1])
                          and bool(l.topDepth < l.botDepth)]
                sin = [l for l in m.SLayers if bool(l.topDepth >= d[i])
                       and bool(l.botDepth <= d[i + 1])
                       and bool(l.topDepth < l.botDepth)]
                w.check('same layers in fluid', len(inside) == len(sin))
                w.check('same samples in fluid', w.all(*[
                    w.all(a.botDepth == b.botDepth, a.botP == b.botP,
                          a.topP == b.topP)
                    for a, b in zip(inside, sin)]))
    return f


def h_zone(sym):
    def f(w):
        """the bottom of a high slowness zone is sampled exactly"""
        which = w.choice('which', 'PS')
        k = which.lower()
        m, d, vel = model(w, 3, (), [k + x for x in sym])
        prof = profile(d, vel, (), True)
        assume_apart(w, prof)
        m.findCriticalPoints()
        zones = m.highSlownessLayerDepthsP if which == 'P' else \
            m.highSlownessLayerDepthsS
        w.assume(len(zones) > 0)
        m.coarseSample()
        L = m.PLayers if which == 'P' else m.SLayers
        for z in zones:
            w.check('bottom of the zone is a layer boundary', w.any(*[
                w.all(w.close(l.botDepth, z.botDepth, 1e-5),
                      l.botP == z.rayParam) for l in L] +
                [w.all(l.topDepth == l.botDepth, l.botDepth == z.botDepth,
                       l.topP >= z.rayParam, l.botP <= z.rayParam)
                 for l in L]))
    return f


def h_add(n, sym, fluid=(), inner=True, base=(8., 4.), given=None):
    """adding any slowness to a sampled model"""
    def f(w):
        m, d, vel = model(w, n, fluid, sym, inner, base, given)
        prof = profile(d, vel, fluid, inner)
        assume_apart(w, prof)
        SL = w.T.SlownessLayer.SlownessLayer
        for i in range(n):
            if i and (prof[True][i - 1][1] is not prof[True][i][0]):
                l = SL(prof[True][i - 1][1], d[i], prof[True][i][0], d[i])
                m.PLayers.append(l)
                if asP(i, fluid, inner) and asP(i - 1, fluid, inner):
                    m.SLayers.append(l)
                else:
                    m.SLayers.append(SL(prof[False][i - 1][1], d[i],
                                        prof[False][i][0], d[i]))
            l = SL(prof[True][i][0], d[i], prof[True][i][1], d[i + 1])
            m.PLayers.append(l)
            m.SLayers.append(l if asP(i, fluid, inner) else SL(
                prof[False][i][0], d[i], prof[False][i][1], d[i + 1]))
        old = {True: list(m.PLayers), False: list(m.SLayers)}
        p = w.real('p', 0, 5000)
        for k in prof:
            for t in prof[k]:
                for x in t:
                    w.assume(w.any(x == p, x - p > 1e-5, p - x > 1e-5))
        both = w.bool('both')
        if both:
            m.addSlowness(p, True)
        m.addSlowness(p, False)
        if not both:
            m.addSlowness(p, True)
        invariants(w, m, d, vel, fluid, inner)
        for isP in (True, False):
            L = m.PLayers if isP else m.SLayers
            sampled(w, 'added to %s' % 'SP'[isP], p, L, d, fluid, inner,
                    isP)
            for o in old[isP]:
                w.check('samples are kept', w.any(*[
                    w.all(l.botP == o.botP, l.botDepth == o.botDepth)
                    for l in L]))
            # nothing but p is added
            w.check('only that slowness', w.all(*[
                w.any(l.botP == p, *[w.all(l.botP == o.botP,
                                           l.botDepth == o.botDepth)
                                     for o in old[isP]]) for l in L]))
        for i in range(n):
            if asP(i, fluid, inner):
                a, b = [[l for l in L if bool(l.topDepth >= d[i]) and
                         bool(l.botDepth <= d[i + 1]) and
                         bool(l.topDepth < l.botDepth)]
                        for L in (m.PLayers, m.SLayers)]
                w.check('P and S agree in fluid', len(a) == len(b))
                w.check('same samples in fluid', w.all(*[
                    w.all(x.botDepth == y.botDepth, x.botP == y.botP)
                    for x, y in zip(a, b)]))
    return f


def h_depth(n=2, fluid=(), inner=True, sym=(), lo=300, base=(8., 4.)):
    """no layer thicker than maxDepthInterval"""
    def f(w):
        m, d, vel = model(w, n, fluid, sym, inner, base)
        prof = profile(d, vel, fluid, inner)
        for k in prof:
            for a, b in prof[k]:
                # constant slowness cannot be subdivided
                w.assume(w.any(a - b > 1, b - a > 1))
        m.coarseSample()
        x = m.maxDepthInterval = w.real('maxDepthInterval', lo, 2000)
        m.depthIncCheck()
        invariants(w, m, d, vel, fluid, inner)
        for isP in (True, False):
            for l in (m.PLayers if isP else m.SLayers):
                w.check('thickness of %s layers' % 'SP'[isP],
                        l.botDepth - l.topDepth <= x + 1e-4)
    return f


def h_slow(w):
    """no layer spans more than maxDeltaP"""
    m, d, vel = model(w, 2)
    m.coarseSample()
    x = m.maxDeltaP = w.real('maxDeltaP', 100, 300)
    m.rayParamIncCheck()
    invariants(w, m, d, vel, (), True)
    for isP in (True, False):
        for l in (m.PLayers if isP else m.SLayers):
            w.check('slowness step of %s layers' % 'SP'[isP],
                    w.all(l.topP - l.botP <= x + 1e-6,
                          l.botP - l.topP <= x + 1e-6))


def h_slow2(w):
    """whatever is sampled for the slowness step keeps the profiles sound"""
    m, d, vel = model(w, 2, base=(8., 4.))
    m.coarseSample()
    n = {True: len(m.PLayers), False: len(m.SLayers)}
    x = m.maxDeltaP = w.real('maxDeltaP', 60, 2000)
    m.rayParamIncCheck()
    invariants(w, m, d, vel, (), True)
    for isP in (True, False):
        L = m.PLayers if isP else m.SLayers
        w.check('nothing added without need', w.implies(
            x >= 1000, len(L) == n[isP]))


class Curve(object):
    """opaque time and distance of a surface source by ray parameter"""

    def __init__(self, w, dist, time, half):
        self.w, self.d, self.t, self.half = w, dist, time, half

    def at(self, p):
        return self.t(p), self.d(p)


def refine(w, m, curve):
    """run distanceCheck with travel times from the curve; a partial layer
    contributes half of a constant"""
    T = w.T
    TD = T.helper_classes.TimeDist
    SL = T.SlownessLayer.SlownessLayer
    just = 3.

    def approx(slownessTurnLayer, p, isPWave):
        n = slownessTurnLayer
        L = m.PLayers if isPWave else m.SLayers
        t, x = curve[isPWave](p)
        if n + 1 < len(L) and L[n + 1].topP != p and (
                n < 0 or L[n].botP != p):
            # without the part inside the next layer
            assert (L[n + 1].topP - p) * (p - L[n + 1].botP) > 0
            return TD(p, t - 2 * just, x - 2 * just)
        if n >= 0:
            assert L[n].botP == p
        return TD(p, t, x)
    m.approxDistance = approx
    orig = SL.bullenRadialSlowness
    SL.bullenRadialSlowness = lambda self, p, radiusOfEarth: TD(
        p, just, just)
    try:
        m.distanceCheck()
    finally:
        SL.bullenRadialSlowness = orig


def sampled_model(w, n, minDeltaP):
    """n layers of constant velocity, each with a slowness step of 8"""
    m, d, vel = model(w, n, given=[[128.] * 4] * n)
    SL = w.T.SlownessLayer.SlownessLayer
    for L in (m.PLayers, m.SLayers):
        for i in range(n):
            L.append(SL(8. * (n - i), d[i], 8. * (n - i - 1), d[i + 1]))
    m.minDeltaP = minDeltaP
    return m, d, vel


def h_range(w):
    """steps of distance are small enough or cannot be refined"""
    m, d, vel = sampled_model(w, 2, 2.)
    which = w.bool('P')
    D = {}

    def sym(p):
        if p not in D:
            D[p] = w.real('D%g' % p, 0, 100)
        return 0., D[p]
    m.maxRangeInterval, m.maxInterpError = 10., 1e9
    refine(w, m, {which: sym, (not which): lambda p: (0., 0.)})
    invariants(w, m, d, vel, (), True)
    for isP in (True, False):
        w.check('P and S agree', len(m.PLayers) == len(m.SLayers))
        for l in (m.PLayers if isP else m.SLayers):
            if isP != which or abs(l.topP - l.botP) <= 4:
                continue
            w.check('distance step', w.all(
                sym(l.topP)[1] - sym(l.botP)[1] <= 10 + 1e-9,
                sym(l.botP)[1] - sym(l.topP)[1] <= 10 + 1e-9))


def h_error(n, grid, jump=False):
    """the interpolation error is small enough everywhere"""
    def f(w):
        m, d, vel = sampled_model(w, n, 2.)
        which = w.bool('P')
        ps = sorted(set(grid) | {0., 8. * n})
        V = {p: w.real('T%g' % p, 0, 100) if p in grid else 50. for p in ps}

        def time(p):
            # straight between grid points
            if p in V:
                return V[p]
            a = max(x for x in ps if x < p)
            b = min(x for x in ps if x > p)
            return V[a] + (V[b] - V[a]) * ((p - a) / (b - a))

        def sym(p):
            return time(p), 100. - p
        m.maxRangeInterval, m.maxInterpError = 1e9, 10.
        if jump:
            # every step of 8 is too long
            m.maxRangeInterval = 7.
        refine(w, m, {which: sym, (not which): lambda p: (0., 100. - p)})
        invariants(w, m, d, vel, (), True)
        for l in (m.PLayers if which else m.SLayers):
            a, b = l.topP, l.botP
            err = (time(a) + time(b)) / 2 - time((a + b) / 2)
            w.check('interpolation error', w.all(2 * err <= 10 + 1e-6,
                                                 -2 * err <= 10 + 1e-6))
            if jump:
                w.check('distance step', a - b <= 7)
    return f


def h_hsz(w):
    """nothing is refined for curves inside a high slowness zone"""
    DR = w.T.helper_classes.DepthRange
    SL = w.T.SlownessLayer.SlownessLayer
    # slowness 16..8, zone with 8..12..8, 8..0
    v = [[128.] * 4, [64.] * 4, [64.] * 4]
    m2, d, vel = model(w, 3, given=v)
    for L, Z in ((m2.PLayers, m2.highSlownessLayerDepthsP),
                 (m2.SLayers, m2.highSlownessLayerDepthsS)):
        L.append(SL(24., 0., 16., 1024.))
        L.append(SL(16., 1024., 32., 1024.))
        L.append(SL(32., 1024., 16., 2048.))
        L.append(SL(16., 2048., 0., 3072.))
        Z.append(DR(1024., 2048., 16.))
    m2.minDeltaP, m2.maxRangeInterval, m2.maxInterpError = 3., 10., 1e9
    D = {}

    def sym(p):
        if p not in D:
            D[p] = w.real('D%g' % p, 0, 100)
        return 0., D[p]
    TD = w.T.helper_classes.TimeDist
    asked = []

    def approx(slownessTurnLayer, p, isPWave):
        asked.append(p)
        t, x = sym(p)
        return TD(p, t, x)
    m2.approxDistance = approx
    orig = w.T.SlownessLayer.SlownessLayer.bullenRadialSlowness
    w.T.SlownessLayer.SlownessLayer.bullenRadialSlowness = \
        lambda self, p, radiusOfEarth: TD(p, 0., 0.)
    try:
        m2.distanceCheck()
    finally:
        w.T.SlownessLayer.SlownessLayer.bullenRadialSlowness = orig
    w.check('no ray turns in the zone', w.all(*[
        w.any(p >= 16, p <= 16) for p in asked]))
    for l in m2.PLayers:
        # the ray grazing the top of the zone counts as in the zone
        if bool(l.botDepth >= 1024.) and bool(l.botDepth <= 2048.):
            continue
        if abs(l.topP - l.botP) <= 6:
            continue
        w.check('distance step', w.all(
            sym(l.topP)[1] - sym(l.botP)[1] <= 10 + 1e-9,
            sym(l.botP)[1] - sym(l.topP)[1] <= 10 + 1e-9))


def h_create(w):
    """the stages run in an order that leaves a complete sampling"""
    T = w.T
    VL, VM = T.VelocityLayer.VelocityLayer, T.VelocityModel.VelocityModel

    class NoRefinement(T.SlownessModel.SlownessModel):
        def distanceCheck(self):
            pass
    fluid = w.choice('fluid', [(), (1,)])
    v = [[6., 8., w.real('s0', 3, 5), 4.5],
         [w.real('p1', 7, 9), 12., 5., 7.],
         [13., 14., 8., 8.]]
    for i in fluid:
        v[i][2] = v[i][3] = 0.
    d = [0., 1024., 2048., 3072.]
    vm = VM('x', 3072., 1024., 2048., 3072., 0., 3072., True,
            [VL(i, d[i], d[i + 1], *(v[i] + [3., 3.])) for i in range(3)])
    assume_apart(w, profile(d, v, fluid, True))
    other = NoRefinement(VM('y', 2048., 512., 1024., 2048., 0., 2048., True, [
        VL(0, 0., 512., 8., 8., 4., 4., 3., 3.),
        VL(1, 512., 1024., 4., 4., 2., 2., 3., 3.),
        VL(2, 1024., 2048., 8., 8., 0., 0., 3., 3.)]),
        .1, 1e5, 200., 10., 1e5)

    def seen():
        return [x for ls in (other.PLayers, other.SLayers) for l in ls
                for x in (l.topDepth, l.botDepth, l.topP, l.botP)] + [
            x for c in other.criticalDepths
            for x in (c.depth, c.pLayerNum, c.sLayerNum)]
    kept = seen()
    m = NoRefinement(vm, .1, 1e5, 400., 10., 1e5)
    w.check('models made before', seen() == kept)
    invariants(w, m, d, v, fluid, True)
    for isP in (True, False):
        L = m.PLayers if isP else m.SLayers
        for l in L:
            w.check('thickness', l.botDepth - l.topDepth <= 400.0001)
        for c in m.criticalDepths[:-1]:
            num = c.pLayerNum if isP else c.sLayerNum
            w.check('critical depth tops its layer', w.all(
                L[num].topDepth == c.depth,
                # below all zero thickness layers
                L[num].botDepth > c.depth))
        c = m.criticalDepths[-1]
        w.check('last critical depth', (c.pLayerNum if isP else
                                        c.sLayerNum) == len(L))


def h_settings(w):
    """the limits asked of TauP_Create are those of the sampling"""
    T = w.T
    SM, TM = T.SlownessModel.SlownessModel, T.TauModel.TauModel
    vm = common.smodel(w).vMod
    names = ('min_delta_p', 'max_delta_p', 'max_depth_interval',
             'max_range_interval', 'max_interp_error')
    v = {k: w.real(k, 0.001, 1000) for k in names}
    inner = w.bool('allow_inner_core_s')
    old = SM.createSample, TM.__init__
    try:
        SM.createSample = lambda self: None

        def init(self, sMod, *a, **k):
            self.sMod = sMod
        TM.__init__ = init
        tc = T.TauP_Create.TauP_Create('x.tvel', 'x.taup',
                                       allow_inner_core_s=inner, **v)
        m = tc.createTauModel(vm).sMod
    finally:
        SM.createSample, TM.__init__ = old
    w.check('limits', w.all(
        w.close(m.minDeltaP, v['min_delta_p']),
        w.close(m.maxDeltaP, v['max_delta_p']),
        w.close(m.maxDepthInterval, v['max_depth_interval']),
        w.close(m.maxRangeInterval * 180 / 3.141592653589793,
                v['max_range_interval']),
        w.close(m.maxInterpError, v['max_interp_error']),
        m.vMod is vm))
    w.check('inner core S', w.iff(m.allowInnerCoreS, inner))


def cases(tier):
    q = tier == 'quick'
    out = []

    def coarse(name, *a, **k):
        out.append(Case('coarse-' + name, h_coarse(*a, **k), nl=True,
                        split=(5, 4), secs=400 if q else 2000,
                        bounds='%d layers, symbolic %s' % (a[0], a[1])))
    coarse('p', 2, ('pb0', 'pt1'))
    coarse('s', 2, ('sb0', 'st1'))
    coarse('ps', 2, ('pb0', 'sb0', 'st1'))
    coarse('fluid', 3, ('pb0', 'pt1'), (1,))
    coarse('fluid-s', 3, ('sb0', 'st2'), (1,))
    coarse('inner', 3, ('pb1', 'pt2', 'st2'), (1,), 2)
    for nm, a in (('p', (2, ('pb0', 'pt1'))), ('s', (2, ('sb0', 'st1'))),
                  ('fluid', (3, ('pt1', 'pt2'), (1,))),
                  ('fluid-s', (3, ('sb0', 'st2'), (1,))),
                  ('inner', (3, ('pb1', 'st2'), (1,), 2))):
        out.append(Case('add-' + nm, h_add(*a), nl=True, split=(5, 4),
                        bounds='any slowness; symbolic %s' % (a[1],)))
    out += [
        Case('zone', h_zone(('t1', 'b1')), nl=True, split=(6, 8),
             secs=200, bounds='3 layers, two symbolic velocities'),
        Case('depth', h_depth(sym=('pb0',)), nl=True,
             bounds='step 300..2000 km'),
        Case('depth-s', h_depth(sym=('st1',), lo=400), nl=True,
             secs=200, bounds='step 400..2000 km'),
        Case('depth-fluid', h_depth(2, (1,), sym=('pt1',)), nl=True,
             bounds='step 300..2000 km'),
        Case('depth-inner', h_depth(3, (1,), 2, sym=('pt2',), lo=500), nl=True,
             bounds='step 300..2000 km'),
        Case('slowness step', h_slow, nl=True, known='slowness-step',
             bounds='step 100..300 s/rad'),
        Case('slowness step sound', h_slow2, nl=True,
             bounds='step 60..2000 s/rad'),
        Case('range', h_range, split=(6, 4), bounds='opaque distance curve '
             'at 5 ray parameters'),
        Case('error', h_error(3, [2. * i for i in range(12)]),
             split=(6, 4), bounds='opaque time curve at 12 ray parameters'),
        Case('error+range', h_error(2, [4., 6., 8., 9., 10., 11., 12.],
                                    True), split=(6, 4),
             bounds='opaque time curve at 7 ray parameters'),
        Case('zone untouched', h_hsz, split=(4, 2),
             bounds='opaque distance curve'),
        Case('settings', h_settings, bounds='any limits'),
        Case('create', h_create, nl=True,
             bounds='3 layers, two symbolic velocities')]
    if not q:
        out.append(Case('zone3', h_zone(('t1', 'b1', 't2')), nl=True,
                        split=(8, 8), secs=2000,
                        bounds='3 layers, three symbolic velocities'))
        out.append(Case('error fine', h_error(2, [1. * i for i in range(16)]),
                        split=(8, 8), secs=2000,
                        bounds='opaque time curve at 16 ray parameters'))
        coarse('ss', 2, ('st0', 'sb0', 'st1'))
        coarse('pp', 2, ('pt0', 'pb0', 'pt1'))
        coarse('fluid+', 3, ('pb0', 'pt1', 'pt2'), (1,))
        coarse('p3', 3, ('pb0', 'pt1', 'pb1', 'pt2'))
        coarse('ps3', 3, ('pb0', 'st1', 'pt2'))
    return out
