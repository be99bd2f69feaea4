"""C02 velocity model evaluation."""
from symx.runner import Case
from . import common

ASSUMPTIONS = ['real arithmetic stands for floating point']
PROPS = [('p', 'PVelocity'), ('s', 'SVelocity'), ('d', 'Density'),
         ('r', 'Density'), ('P', 'PVelocity'), ('S', 'SVelocity')]


def model(w, n):
    V = w.T.VelocityModel
    L = w.T.VelocityLayer.VelocityLayer
    depths = [0.0]
    for i in range(n):
        depths.append(depths[-1] + w.real('h%d' % i, 0.01, 3000))
    layers = []
    for i in range(n):
        v = [w.real('v%d_%d' % (i, k), 0.1, 20) for k in range(6)]
        layers.append(L(i, depths[i], depths[i + 1], *v))
    m = V.VelocityModel('m', depths[-1], layers=layers)
    return m, depths, layers


def h_eval(n, again=False):
    def f(w):
        m, depths, layers = model(w, n)
        if again:
            # asked before, here and in another model
            L = w.T.VelocityLayer.VelocityLayer
            other = w.T.VelocityModel.VelocityModel('m', 9000., layers=[
                L(0, 0., 90., 6., 7., 3., 4., 2., 2.5),
                L(1, 90., 9000., 8., 9., 4., 5., 3., 3.)])
            y = w.real('y', 0, 9000)
            g = w.choice('before', ['evaluateAbove', 'evaluateBelow'])
            for k in (m, other):
                common.raises(getattr(k, g), y, 's')
        d = w.real('d', 0, 10000)
        prop, attr = w.choice('prop', PROPS)
        above = w.bool('above')
        inside = w.all(d > 0, d <= depths[-1]) if above else \
            w.all(d >= 0, d < depths[-1])
        if not inside:
            try:
                (m.evaluateAbove if above else m.evaluateBelow)(d, prop)
            except Exception:
                w.check('rejects', True)
                return
            w.check('depth outside the model must be rejected', False)
        got = (m.evaluateAbove if above else m.evaluateBelow)(d, prop)
        for i in range(n):
            if (depths[i] < d) if above else (d < depths[i + 1]):
                if (d <= depths[i + 1]) if above else (depths[i] <= d):
                    t = getattr(layers[i], 'top' + attr)
                    b = getattr(layers[i], 'bot' + attr)
                    want = t + (b - t) * (d - depths[i]) / (
                        depths[i + 1] - depths[i])
                    w.observe('value', got)
                    w.check('linear interpolation', w.close(got, want, 1e-6))
                    return
        w.check('no layer', False)
    return f


def h_ends(w):
    """A single layer, which can also be asked directly."""
    m, depths, layers = model(w, 2)
    prop, attr = w.choice('prop', PROPS + [('D', 'Density')])
    i = w.choice('layer', [0, 1])
    layer = layers[i]
    t, b = getattr(layer, 'top' + attr), getattr(layer, 'bot' + attr)
    top, bot = layer.evaluateAtTop(prop), layer.evaluateAtBottom(prop)
    w.observe('top', top)
    w.observe('bottom', bot)
    w.check('value at the top', top == t)
    w.check('value at the bottom', bot == b)
    x = w.real('part', 0, 1)
    got = layer.evaluateAt(depths[i] + x * (depths[i + 1] - depths[i]), prop)
    w.check('value within', w.close(got, t + x * (b - t), 1e-6))
    for f in (layer.evaluateAtTop, layer.evaluateAtBottom,
              lambda q: layer.evaluateAt(depths[i], q)):
        w.check('unknown property', common.raises(f, 'x')[0])


def cases(tier):
    return [Case('eval%d' % n, h_eval(n), nl=True) for n in
            ((1, 2, 3, 6, 12, 25) if tier == 'thorough' else (1, 2, 3, 6))] + [
                Case('ends', h_ends, nl=True),
                Case('again', h_eval(2, True), nl=True, split=(8, 4),
                     bounds='2 layers, another depth before')]
