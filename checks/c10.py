"""C10 slowness at a depth and depth of a slowness inside one layer."""
from symx.runner import Case
from . import common

ASSUMPTIONS = [common.REAL, common.MATHAX,
               'a layer that ends at the centre is interpolated linearly, as '
               'documented in the code']


def layer(w, kind):
    SL = w.T.SlownessLayer.SlownessLayer
    R = w.real('R', 500, 20000)
    top = w.real('top', 0, 19000)
    if kind in ('centre', 'ending'):
        w.assume(top < R - 1)
        bot, topP, botP = R, w.real('topP', 0.5, 5000), 0.0
        if kind == 'ending':
            botP = w.real('botP', 0.5, 5000)
            w.assume(w.any(topP + 1 < botP, botP + 1 < topP))
    else:
        bot = w.real('bot', 0, 19900)
        w.assume(top + (2 if kind != 'thin' else 0.01) <= bot)
        w.assume(bot < R - 1)
        topP = w.real('topP', 0.5, 5000)
        botP = w.real('botP', 0.5, 5000)
        if kind == 'decreasing':
            w.assume(botP < topP * 0.999)
        elif kind == 'increasing':
            w.assume(topP < botP * 0.999)
        elif kind == 'constant':
            w.assume(topP == botP)
    return SL(topP, top, botP, bot), R


def law(w, sl, R, kind, p, d):
    """(p, d) lies on the layer's interpolant"""
    if kind in ('centre', 'ending'):
        return w.close((p - sl.botP) * (sl.botDepth - sl.topDepth),
                       (sl.topP - sl.botP) * (sl.botDepth - d), 1e-3)
    ln = w.math.log
    rt, rb, r = R - sl.topDepth, R - sl.botDepth, R - d
    return w.close(ln(p / sl.topP) * ln(rb / rt),
                   ln(sl.botP / sl.topP) * ln(r / rt), 1e-7)


def lemma(w, *xs):
    """instantiates the axioms of log for these terms"""
    for x in xs:
        w.math.log(x)


def between(w, x, a, b, tol):
    return w.any(w.all(a - tol <= x, x <= b + tol),
                 w.all(b - tol <= x, x <= a + tol))


def h_eval(kind):
    def f(w):
        sl, R = layer(w, kind)
        d = w.real('d', 0, 20000)
        w.assume(w.all(sl.topDepth <= d, d <= sl.botDepth))
        ex, p = common.raises(sl.evaluateAtBullen, d, R)
        w.check('accepted', not ex)
        w.observe('p', p)
        if kind not in ('centre', 'ending'):
            lemma(w, p / sl.topP, p / sl.botP)
        w.check('top', w.implies(d == sl.topDepth, p == sl.topP))
        w.check('bottom', w.implies(d == sl.botDepth, p == sl.botP))
        w.check('between the end values',
                between(w, p, sl.topP, sl.botP, 1e-7))
        if kind == 'constant':
            w.check('constant', w.close(p, sl.topP, 1e-6))
        elif w.any(d == sl.topDepth, d == sl.botDepth):
            pass
        else:
            w.check('law', law(w, sl, R, kind, p, d))
    return f


def h_depth(kind):
    def f(w):
        sl, R = layer(w, kind)
        p = w.real('p', 0, 6000)
        inside = between(w, p, sl.topP, sl.botP, 0)
        ex, d = common.raises(sl.bullenDepthFor, p, R)
        if ex:
            w.check('rejected only outside the range of the layer',
                    w.not_(inside))
            w.check('model error', isinstance(
                d, w.T.helper_classes.SlownessModelError))
            return
        w.check('outside rejected', inside)
        w.observe('d', d)
        w.check('inside the layer',
                w.all(sl.topDepth - 1e-6 <= d, d <= sl.botDepth + 1e-6))
        if kind == 'constant':
            return
        w.check('top', w.implies(p == sl.topP,
                                 w.close(d, sl.topDepth, 1e-9)))
        w.check('bottom', w.implies(p == sl.botP,
                                    w.close(d, sl.botDepth, 1e-9)))
        if w.any(p == sl.topP, p == sl.botP):
            return
        w.check('law', law(w, sl, R, kind, p, d))
    return f


def h_round(kind):
    def f(w):
        sl, R = layer(w, kind)
        p = w.real('p', 0, 6000)
        w.assume(between(w, p, sl.topP, sl.botP, 0))
        d = sl.bullenDepthFor(p, R)
        w.assume(w.all(sl.topDepth <= d, d <= sl.botDepth))
        q = sl.evaluateAtBullen(d, R)
        w.observe('q', q)
        if w.all(q > 0, p > 0):
            lemma(w, q / p)
        w.check('maps back', w.close(p, q, 1e-5))
    return f


def h_zero(w):
    """zero thickness layers: any slowness of the jump is at its depth"""
    SL = w.T.SlownessLayer.SlownessLayer
    R, d = w.real('R', 500, 20000), w.real('d', 0, 20000)
    w.assume(d <= R)
    a, b, p = w.real('a', 0, 5000), w.real('b', 0, 5000), w.real('p', 0, 6000)
    sl = SL(a, d, b, d)
    ex, got = common.raises(sl.bullenDepthFor, p, R)
    inside = between(w, p, a, b, 0)
    if ex:
        w.check('rejected only outside', w.not_(inside))
        return
    w.check('outside rejected', inside)
    w.check('depth', got == d)


def cases(tier):
    out = []
    for k in ('decreasing', 'increasing', 'constant', 'centre', 'ending',
              'thin'):
        for n, h in (('eval', h_eval), ('depth', h_depth),
                     ('round', h_round)):
            if k == 'constant' and n == 'round':
                continue
            if k == 'ending' and n != 'depth':
                continue
            if k == 'thin' and n != 'eval':
                continue
            out.append(Case('%s_%s' % (n, k), h(k), nl=True,
                            bounds='one %s layer, radius 500..20000 km, ' % k))
    return out + [Case('zero', h_zero, nl=True, bounds='zero thickness')]
