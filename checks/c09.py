"""C09 time and distance increments of a ray crossing one layer."""
import math

from symx.runner import Case
from . import common

ASSUMPTIONS = [common.REAL, common.MATHAX,
               'reference: for p(r) = A r^B distance is (asin(p/bot) - '
               'asin(p/top))/B and time (sqrt(top^2-p^2) - sqrt(bot^2-p^2))/B '
               '(Buland and Chapman), triangle geometry in constant velocity '
               'layers']


def setup(w, kind):
    SL = w.T.SlownessLayer.SlownessLayer
    m = common.smodel(w)
    R = w.real('R', 500, 20000)
    top = w.real('top', 0, 19000)
    isP = w.bool('isP')
    v = None
    if kind == 'centre':
        w.assume(top < R - 1)
        bot, topP, botP = R, w.real('topP', 0.5, 5000), 0.0
    else:
        bot = w.real('bot', 0, 19900)
        if kind == 'thin':
            w.assume(w.all(top + 0.0001 <= bot, bot <= top + 0.5))
        else:
            w.assume(top + 0.5 <= bot)
        w.assume(bot < R - 1)
        if kind == 'uniform':
            v = w.real('v', 0.5, 20)
            topP, botP = (R - top) / v, (R - bot) / v
        else:
            topP = w.real('topP', 0.5, 5000)
            botP = w.real('botP', 0.5, 5000)
            if kind in ('decreasing', 'thin'):
                w.assume(botP < topP * 0.999)
            elif kind == 'increasing':
                w.assume(topP < botP * 0.999)
            elif kind == 'same':
                w.assume(topP == botP)
            elif kind == 'zero':
                bot = top
    above = SL(9999., 0., topP, top)
    sl = SL(topP, top, botP, bot)
    layers = [above, sl]
    m.radiusOfEarth = R
    thin = [SL(9999., 5., 9999., 5.)] * 3
    m.PLayers, m.SLayers = (layers, thin) if isP else (thin, layers)
    p = w.real('p', 0, 6000)
    # asked before: the other wave type, another model
    other = common.smodel(w)
    other.PLayers = other.SLayers = thin
    for k, t in ((m, not isP), (other, isP)):
        td = k.layerTimeDist(p, 1, t)
        w.check('nothing without thickness', w.all(
            td.p == p, td.time == 0, td.distRadian == 0))
    return m, sl, R, p, isP, v


def h(kind):
    def f(w):
        m, sl, R, p, isP, v = setup(w, kind)
        lo = w.min(sl.topP, sl.botP)
        rt, rb = R - sl.topDepth, R - sl.botDepth
        if kind not in ('zero', 'centre', 'uniform'):
            # not mistaken for a constant velocity layer
            w.assume(w.any(sl.topP * rb - sl.botP * rt > 0.01,
                           sl.botP * rt - sl.topP * rb > 0.01))
        if kind == 'same':
            # a ray horizontal throughout has no finite length
            w.assume(p < sl.topP * 0.999)
        ex, td = common.raises(m.layerTimeDist, p, 1, isP)
        if ex:
            w.check('rejected only if the ray turns in the layer', lo < p)
            w.check('model error', isinstance(
                td, w.T.helper_classes.SlownessModelError))
            return
        w.check('a ray turning in the layer is rejected', p <= lo)
        dist, time = td.distRadian, td.time
        w.observe('dist', dist)
        w.observe('time', time)
        w.check('not negative', w.all(dist >= -1e-9, time >= -1e-9))
        w.check('ray parameter', td.p == p)
        if kind == 'zero':
            w.check('no increments', w.all(dist == 0, time == 0))
        elif kind == 'centre':
            w.check('vertical only', p == 0)
            w.check('half turn', w.close(dist, math.pi / 2, 1e-9))
            w.check('time', w.close(time, sl.topP, 1e-9))
        elif kind == 'uniform':
            sq = w.math.sqrt
            pv = p * v
            a, b2 = rt * rt - pv * pv, rb * rb - pv * pv
            if b2 < 1e-7:
                # the ray turns at the bottom
                b2 = 0 if w.sym else max(b2, 0)
                w.check('time', w.close(time * v, sq(a) if b2 == 0 else
                                        sq(a) - sq(b2), 1e-2))
                return
            path = sq(a) - sq(b2)
            w.check('time', w.close(time * v, path, 1e-5))
            w.check('half circle', dist <= math.pi / 2 + 1e-9)
            w.check('distance', w.close(w.math.sin(dist) * rt * rb,
                                        path * pv, 1e-2))
        else:
            ln, sq, asin = w.math.log, w.math.sqrt, w.math.asin
            tp, bp = sl.topP, sl.botP
            L = ln(rt / rb)
            if kind == 'same':
                c = sq(tp * tp - p * p)
                w.check('time', w.close(time * c, tp * tp * L, 1e-5))
                w.check('distance', w.close(dist * c, p * L, 1e-7))
                return
            Q = ln(tp / bp)
            tol = rt - rb if kind == 'thin' else 1
            w.check('time', w.close(
                time * Q, (sq(tp * tp - p * p) - sq(bp * bp - p * p)) * L,
                1e-6 * tol))
            w.check('distance', w.close(
                dist * Q, (asin(p / bp) - asin(p / tp)) * L, 1e-8 * tol))
            w.check('vertical rays cover no distance',
                    w.implies(p == 0, w.close(dist, 0, 1e-9)))
    return f


def h_sum(w):
    """approximate distance of a surface source: twice the layers above"""
    m = common.smodel(w)
    SL = w.T.SlownessLayer.SlownessLayer
    TD = w.T.helper_classes.TimeDist
    n = 3
    ts = [w.real('t%d' % i, 0, 100) for i in range(n)]
    ds = [w.real('d%d' % i, 0, 3) for i in range(n)]
    seen = []

    def fake(p, num, isP):
        seen.append((p, num, isP))
        return TD(p, ts[num], ds[num])
    m.layerTimeDist = fake
    m.PLayers = [SL(1., 0., 1., 1.)] * (n if w.bool('short') else n + 2)
    m.SLayers = m.PLayers
    isP = w.bool('isP')
    k = w.choice('k', [0, 1, 2, 3])
    p = w.real('p', -5, 100)
    if k >= n:
        ex, td = common.raises(m.approxDistance, 5, p, isP)
        w.check('no such layer', ex)
        return
    ex, td = common.raises(m.approxDistance, k, p, isP)
    if ex:
        w.check('negative ray parameter', p < 0)
        return
    w.check('layers', w.all(len(seen) == k + 1, *[
        a[1] == i and a[2] == isP for i, a in enumerate(seen)]))
    w.check('ray parameter', w.all(td.p == p, *[a[0] == p for a in seen]))
    w.check('time', w.close(td.time, 2 * sum(ts[:k + 1]), 1e-9))
    w.check('distance', w.close(td.distRadian, 2 * sum(ds[:k + 1]), 1e-9))


def cases(tier):
    return [Case(k, h(k), nl=True,
                 bounds='one %s layer, radius 500..20000 km' % k)
            for k in ('decreasing', 'increasing', 'uniform', 'same', 'zero',
                      'centre', 'thin')] + \
        [Case('sum', h_sum, bounds='turning layer 0..2 of up to 5 layers')]
