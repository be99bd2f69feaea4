"""C08 layer lookups, zones and turning limits of a slowness model."""
from symx.runner import Case
from . import common

ASSUMPTIONS = [common.REAL, common.MATHAX,
               'slowness inside a layer is what the layer itself reports '
               '(decided by C10)']


def profile(w, n, thin, tag='', conc=False):
    """n contiguous slowness layers, those listed in thin without thickness"""
    SL = w.T.SlownessLayer.SlownessLayer
    d, p = [0.0], [w.real(tag + 'p0', 0.5, 5000)]
    for i in range(n):
        d.append(d[-1] if i in thin else d[-1] + (
            100. * (i + 1) if conc else w.real(tag + 'h%d' % i, 0.01, 2000)))
        p.append(w.real(tag + 'p%d' % (i + 1), 0.5, 5000))
    return [SL(p[i], d[i], p[i + 1], d[i + 1]) for i in range(n)], d, p


def model(w, layers, isP, R):
    SL = w.T.SlownessLayer.SlownessLayer
    m = common.smodel(w)
    m.radiusOfEarth = R
    other = [SL(7., 0., 6., 1.), SL(6., 1., 5., 2.)]
    m.PLayers, m.SLayers = (layers, other) if isP else (other, layers)
    return m


def h_lookup(n, thin, again=False):
    def f(w):
        layers, d, p = profile(w, n, thin)
        isP = w.bool('isP')
        m = model(w, layers, isP, d[-1] + 1000)
        if again:
            y, q = w.real('y', 0, 2000 * n + 100), w.bool('same type')
            for name in ('layerNumberBelow', 'layerNumberAbove',
                         'layerNumForDepth'):
                common.raises(getattr(m, name), y, isP if q else not isP)
        x = w.real('x', 0, 2000 * n + 100)
        inside = x <= d[-1]
        for name in ('layerNumberAbove', 'layerNumberBelow',
                     'layerNumForDepth'):
            ex, k = common.raises(getattr(m, name), x, isP)
            w.check('%s rejects depths outside' % name,
                    w.iff(ex, w.not_(inside)))
            if ex:
                w.check('model error', isinstance(
                    k, w.T.helper_classes.SlownessModelError))
                continue
            w.check('a layer number', 0 <= k < n)
            t, b = layers[k].topDepth, layers[k].botDepth
            if name == 'layerNumberAbove':
                w.check('the layer above', w.any(
                    w.all(t < x, x <= b), w.all(k == 0, x == 0)))
            elif name == 'layerNumberBelow':
                w.check('the layer below', w.any(
                    w.all(t <= x, x < b), w.all(k == n - 1, x == d[-1])))
            else:
                w.check('a layer at this depth', w.all(t <= x, x <= b))
        k = w.choice('k', list(range(n)))
        w.check('layer by number', m.getSlownessLayer(k, isP) is layers[k])
        w.check('number of layers', m.getNumLayers(isP) == n)
        w.check('of the other wave type', m.getNumLayers(not isP) == 2)
    return f


def h_zones(w):
    DR = w.T.helper_classes.DepthRange
    m = common.smodel(w)

    def ranges(tag, n):
        e = [w.real('%s0' % tag, 0, 1000)]
        for i in range(2 * n - 1):
            e.append(e[-1] + w.real('%s%d' % (tag, i + 1),
                                    0 if i % 2 else 1, 1000))
        return [DR(e[2 * i], e[2 * i + 1], w.real('%srp%d' % (tag, i), 0,
                                                  3000)) for i in range(n)]
    zp, zs = ranges('P', w.choice('np', [0, 1, 2])), ranges('S', 1)
    m.highSlownessLayerDepthsP, m.highSlownessLayerDepthsS = zp, zs
    isP = w.bool('isP')
    x, p = w.real('x', 0, 6000), w.real('p', 0, 3000)
    got = m.depthInHighSlowness(x, p, isP)
    want = w.any(*[w.all(z.topDepth <= x, x <= z.botDepth, w.any(
        p > z.rayParam, w.all(p == z.rayParam, x == z.topDepth)))
        for z in (zp if isP else zs)])
    w.check('in high slowness', w.iff(got is True or got == True, want))


def h_fluid(n):
    def f(w):
        DR = w.T.helper_classes.DepthRange
        m = common.smodel(w)
        e = [w.real('e0', 0, 1000)]
        for i in range(2 * n - 1):
            e.append(e[-1] + w.real('e%d' % (i + 1), 0 if i % 2 else 1, 1000))
        m.fluidLayerDepths = [DR(e[2 * i], e[2 * i + 1]) for i in range(n)]
        x = w.real('x', 0, 6000)
        w.check('in fluid', w.iff(bool(m.depthInFluid(x)), w.any(*[
            w.all(e[2 * i] <= x, x < e[2 * i + 1]) for i in range(n)])))
    return f


def h_limits(n, thin, zone):
    def f(w):
        DR = w.T.helper_classes.DepthRange
        layers, d, p = profile(w, n, thin)
        R = w.choice('R', [20000.])
        isP = w.bool('isP')
        m = model(w, layers, isP, R)
        a, b = zone if zone else (0, 0)
        zs = [DR(d[a], d[b], w.real('rp', 0.5, 5000))] if zone else []
        m.highSlownessLayerDepthsP = zs if isP else [DR(0., 19000., 1.)]
        m.highSlownessLayerDepthsS = zs if not isP else [DR(0., 19000., 1.)]
        x = w.real('x', 0.001, 2000 * n)
        w.assume(x < d[-1])    # slowness at the centre is 0
        for i in range(1, n):   # away from but possibly on boundaries
            w.assume(w.any(x == d[i], x - d[i] > 0.01, d[i] - x > 0.01))
        turn = m.getMinTurnRayParam(x, isP)
        both = m.getMinRayParam(x, isP)
        # slowness on the upper and the lower side of the depth
        for i in range(n):
            if w.all(d[i] < x, x <= d[i + 1]):
                here = p[i + 1] if x == d[i + 1] else \
                    layers[i].evaluateAtBullen(x, R)
                up = i
        low = None
        if x == d[up + 1]:
            low = p[up + 1]
            for j in range(up + 1, n):
                if j in thin and d[j] == x:
                    low = p[j + 1]
                else:
                    break
        want = here
        if zone and w.all(d[a] <= x, x <= d[b]):
            want = w.min(here, *p[1:up + 1]) if up else here
        w.observe('turn', turn)
        w.check('smallest turning ray parameter', w.close(turn, want, 1e-7))
        if low is not None:
            want = w.min(want, low)
        w.check('smallest turning or reflected ray parameter',
                w.close(both, want, 1e-7))
    return f


def cases(tier):
    out = [Case('lookup%d' % n, h_lookup(n, t), bounds='%d layers, %s '
                'without thickness' % (n, sorted(t)),
                split=(8, 4) if n > 5 else None)
           for n, t in ((1, ()), (2, ()), (4, (1,)), (5, (2, 3)),
                        (7, (2,)))]
    out += [Case('lookup%d' % n, h_lookup(n, t), split=(10, 8), secs=900,
                 bounds='%d layers, %s without thickness' % (
                     n, sorted(t))) for n, t in (
                         (10, (2, 6, 7)), (16, (3, 9))) + (
                             () if tier == 'quick' else
                             ((24, (0, 8, 23)), (40, (3, 19))))]
    out.append(Case('lookup again', h_lookup(4, (1,), True), split=(8, 4),
                    bounds='4 layers, another depth before'))
    out.append(Case('zones', h_zones, bounds='up to 2 zones per wave type'))
    out += [
        Case('fluid%d' % n, h_fluid(n), bounds='%d fluid ranges' % n)
        for n in (1, 3)]
    out += [Case('limits%d%s' % (n, ''.join(map(str, z))),
                 h_limits(n, t, z), nl=True,
                 bounds='%d layers, zone over layers %s' % (n, z or 'none'))
            for n, t, z in ((3, (1,), ()), (3, (), (1, 2)),
                            (4, (2,), (1, 4)), (4, (1,), (2, 3)))]
    return out
