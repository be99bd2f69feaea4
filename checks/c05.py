"""C05 velocity <-> slowness for any model radius."""
from symx.runner import Case
from . import common

ASSUMPTIONS = [common.REAL, 'velocity is linear in depth inside a layer']


def h_layer(w):
    T = w.T
    VL = T.VelocityLayer.VelocityLayer
    R = w.real('R', 1, 70000)
    top = w.real('top', 0, 70000)
    bot = w.real('bot', 0, 70000)
    w.assume(w.all(top <= bot, bot <= R))
    vel = [w.real(n, 0.1, 20) for n in ('pt', 'pb', 'st', 'sb')]
    isP = w.bool('isP')
    sl = T.SlownessLayer.create_from_vlayer(
        VL(0, top, bot, *vel), isPWave=isP, radiusOfEarth=R)
    vt, vb = (vel[0], vel[1]) if isP else (vel[2], vel[3])
    w.observe('topP', sl.topP)
    w.observe('botP', sl.botP)
    w.check('depths', w.all(sl.topDepth == top, sl.botDepth == bot))
    w.check('top', w.close(sl.topP * vt, R - top, 1e-5))
    w.check('bottom', w.close(sl.botP * vb, R - bot, 1e-5))


def h_to(w):
    m = common.smodel(w)
    R = m.radiusOfEarth = w.real('R', 1, 70000)
    d = w.real('d', 0, 70000)
    w.assume(d <= R)
    v = w.real('v', 0, 20)
    ex, p = common.raises(m.toSlowness, v, d)
    w.check('rejected exactly without a velocity', w.iff(ex, v == 0))
    if ex:
        w.check('model error', isinstance(
            p, w.T.helper_classes.SlownessModelError))
        return
    w.assume(v > 0.01)
    w.observe('p', p)
    w.check('definition', w.close(p * v, R - d, 1e-5))


def h_interp(w):
    m = common.smodel(w)
    R = m.radiusOfEarth = w.real('R', 100, 20000)
    d0 = w.real('d0', 0, 20000)
    v0 = w.real('v0', 0.1, 20)
    s = w.real('slope', -0.1, 0.1)
    p = w.real('p', 0, 20000)
    ex, d = common.raises(m.interpolate, p, v0, d0, s)
    if ex:
        w.check('rejected only without a solution', p * s == -1)
        return
    w.check('no solution', w.not_(p * s == -1))
    w.assume(w.any(p * s > -0.99, p * s < -1.01))
    w.observe('d', d)
    w.check('has slowness p', w.close(R - d, p * (v0 + s * (d - d0)), 1e-4))


def h_build(w):
    """a model of any radius, built by the real constructor"""
    T = w.T
    VL, VM = T.VelocityLayer.VelocityLayer, T.VelocityModel.VelocityModel

    class NoRefinement(T.SlownessModel.SlownessModel):
        def distanceCheck(self):
            pass
    R = w.real('R', 2000, 20000)
    h = R / 2
    v = [w.real(n, 2, 2.5) for n in ('a', 'b')]
    ls = [VL(0, 0., h, 6., 10., v[0], v[1], 3., 3.),
          VL(1, h, R, 11., 11., 4., 4., 3., 3.)]
    vm = VM('x', R, h, R, R, 0., R, True, ls)

    def other(r):
        return NoRefinement(VM('y', r, r / 2, r, r, 0., r, True, [
            VL(0, 0., r / 2, 6., 10., 4., 4., 3., 3.),
            VL(1, r / 2, r, 11., 11., 4., 4., 3., 3.)]),
            .1, 1e5, 1e5, 10., 1e5)
    # models of other radii made before and after
    r = w.choice('others', [1024., 32768.])
    first = other(r)
    sm = NoRefinement(vm, .1, 1e5, 1e5, 10., 1e5)
    other(r)
    w.check('radius of the other', w.all(
        first.radiusOfEarth == r, first.toSlowness(8., r / 2) == r / 16))
    w.check('slowness', sm.toSlowness(8., h) == h / 8)
    w.check('radius', sm.radiusOfEarth == R)
    for isP, layers in ((True, sm.PLayers), (False, sm.SLayers)):
        top, bot = layers[0], layers[-1]
        vt, vb = (6., 11.) if isP else (v[0], 4.)
        w.check('surface', w.close(top.topP * vt, R, 1e-5))
        w.check('centre', w.close(bot.botP, 0, 1e-9))
        w.check('middle', w.any(*[
            w.all(w.close(l.botDepth, h, 1e-6),
                  w.close(l.botP * (10. if isP else v[1]), h, 1e-5))
            for l in layers]))


def slow(R, v, d):
    return (R - d) / v


def h_find(n, fluid):
    def f(w):
        m = common.smodel(w)
        VM, VL = w.T.VelocityModel.VelocityModel, \
            w.T.VelocityLayer.VelocityLayer
        if fluid == 'layers':
            d = [0., 700., 1500., 2600., 4000.][:n + 1]
            R = w.choice('R', [4000., 5000.])
        else:
            d = [0.]
            for i in range(n):
                d.append(d[-1] + w.real('h%d' % i, 1, 3000))
            R = w.real('R', 1, 20000)
            w.assume(d[-1] <= R)
        isP = w.bool('isP')
        solid = n - 1 if fluid == 'fluid' else n
        layers, vs = [], []
        for i in range(n):
            ps = [w.real('%s%d' % (k, i), 0.5, 15) for k in ('pt', 'pb')]
            if i < solid:
                ss = [w.real('%s%d' % (k, i), 0.5, 15) for k in ('st', 'sb')]
            else:
                ss = [0., 0.]
            layers.append(VL(i, d[i], d[i + 1], *(ps + ss)))
            vs.append(ps if isP else ss)
        m.vMod = VM('m', R, layers=layers)
        m.radiusOfEarth = R
        m.fluidLayerDepths = [w.T.helper_classes.DepthRange(
            d[solid], d[n])] if solid < n else []
        last = n if isP else solid
        t = w.choice('first', list(range(last)))
        b = w.choice('last', list(range(t, last)))
        p = w.real('p', 0, 20000)
        # numerical chatter at the ends is not of interest
        for i in range(n):
            for x in ((slow(R, vs[i][0], d[i]), slow(R, vs[i][1], d[i + 1]))
                      if i < last else ()):
                w.assume(w.any(p == x, p - x > 1e-7, x - p > 1e-7))
        if w.bool('by depth'):
            ex, got = common.raises(m.findDepth, p, d[t], d[b + 1], isP)
        else:
            ex, got = common.raises(m.findDepth, p, t, b, isP)
        if ex and not isinstance(got, w.T.helper_classes.SlownessModelError):
            w.check('model error', False)
        lo, hi, refl = [], [], []
        for i in range(t, b + 1):
            lo.append(slow(R, vs[i][0], d[i]))
            hi.append(slow(R, vs[i][1], d[i + 1]))
            if i + 1 < n:
                v = vs[i + 1][0] if i + 1 < last else layers[
                    i + 1].topPVelocity
                refl.append((d[i + 1], hi[-1], slow(R, v, d[i + 1])))
        inside = [w.any(w.all(x >= p, p >= y), w.all(y >= p, p >= x))
                  for x, y in zip(lo, hi)]
        jump = [w.all(x >= p, p >= y) for q, x, y in refl]
        if ex:
            w.check('rejected only if not there', w.not_(
                w.any(*(inside + jump))))
            return
        w.check('must be rejected', w.any(*(inside + jump)))
        w.observe('d', got)
        # the first place with this slowness
        done, conds = [], []
        for i in range(t, b + 1):
            k = i - t
            v = vs[i][0] + (vs[i][1] - vs[i][0]) * (got - d[i]) / (
                d[i + 1] - d[i])
            here = w.all(d[i] - 1e-6 <= got, got <= d[i + 1] + 1e-6,
                         w.close(R - got, p * v, 1e-3))
            conds.append(w.implies(w.all(inside[k], *[
                w.not_(x) for x in done]), here))
            done.append(inside[k])
            if k < len(jump):
                conds.append(w.implies(w.all(jump[k], *[
                    w.not_(x) for x in done]), got == refl[k][0]))
                done.append(jump[k])
        w.check('first depth with this slowness', w.all(*conds))
    return f


def cases(tier):
    B = 'radius 1..70000 km, velocities 0.1..20 km/s'
    out = [Case('layer', h_layer, nl=True, bounds=B),
           Case('toSlowness', h_to, nl=True, bounds=B),
           Case('interpolate', h_interp, nl=True, bounds='|slope| <= 0.1'),
           Case('build', h_build, nl=True, bounds='2 layers, three radii'),
           Case('find1', h_find(1, 'solid'), nl=True, bounds='1 layer'),
           Case('find2', h_find(2, 'fluid'), nl=True,
                bounds='a solid above a fluid layer'),
           Case('find2l', h_find(2, 'layers'), nl=True,
                bounds='2 layers, fixed depths', split=(4, 3))]
    if tier != 'quick':
        out.append(Case('find3l', h_find(3, 'layers'), nl=True, secs=1500,
                        bounds='3 layers, fixed depths', split=(6, 8)))
    return out
