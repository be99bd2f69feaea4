"""Helpers shared by the harnesses."""
import os
import tempfile

REAL = ('floating point is modelled by exact real arithmetic; results are '
        'compared with the stated tolerance')
MATHAX = ('log/exp/asin/sin/cos are uninterpreted apart from ranges, '
          'monotonicity and the algebraic identities listed in DESIGN.md; '
          'a counterexample counts only if the real code reproduces it')


def raises(f, *a, **k):
    """(True, exception) or (False, value)"""
    try:
        return False, f(*a, **k)
    except Exception as e:
        return True, e


class TempFile(object):
    def __init__(self, name, text):
        self.name, self.text = name, text

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='symx')
        self.path = os.path.join(self.dir, self.name)
        with open(self.path, 'w') as f:
            f.write(self.text)
        return self.path

    def __exit__(self, *a):
        for n in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, n))
        os.rmdir(self.dir)


def vmodel(w, n, depths=None, R=None, **kw):
    """velocity model with n layers and symbolic velocities"""
    VM, VL = w.T.VelocityModel.VelocityModel, w.T.VelocityLayer.VelocityLayer
    if depths is None:
        depths = [0.0]
        for i in range(n):
            depths.append(depths[-1] + w.real('h%d' % i, 0.01, 3000))
    layers = []
    for i in range(n):
        v = [w.real('%s%d' % (k, i), 0.1, 20)
             for k in ('pt', 'pb', 'st', 'sb', 'dt', 'db')]
        layers.append(VL(i, depths[i], depths[i + 1], *v))
    m = VM('m', R if R is not None else depths[-1], layers=layers, **kw)
    return m, depths, layers


_SM = {}


def smodel(w):
    """A SlownessModel made by its real constructor from a small concrete
    velocity model; harnesses overwrite the fields they quantify over."""
    import copy
    k = id(w.T)
    if k not in _SM:
        VM, VL = w.T.VelocityModel.VelocityModel, \
            w.T.VelocityLayer.VelocityLayer
        ls = [VL(0, 0., 40., 6., 6., 3., 3., 3., 3.),
              VL(1, 40., 3000., 8., 13., 4., 7., 3., 3.),
              VL(2, 3000., 5000., 8., 10., 0., 0., 3., 3.),
              VL(3, 5000., 6000., 11., 11., 3., 3., 3., 3.)]
        vm = VM('small', 6000., 40., 3000., 5000., 0., 6000., True, ls)
        _SM[k] = (w.T, w.T.SlownessModel.SlownessModel(
            vm, .1, 5000., 5000., 10., 100.))
    m = copy.copy(_SM[k][1])
    for a in ('PLayers', 'SLayers', 'criticalDepths', 'fluidLayerDepths',
              'highSlownessLayerDepthsP', 'highSlownessLayerDepthsS'):
        setattr(m, a, list(getattr(m, a)))
    m.vMod = copy.copy(m.vMod)
    return m


def increments(w, m, P, S):
    """Replaces the layer increments of slowness model m (decided by C09) by
    arbitrary ones: per layer object two free constants plus terms that tell
    ray parameters apart.  Returns f(isP, layer number, p) -> (time, dist)."""
    TD = w.T.helper_classes.TimeDist
    tab = {}

    def inc(isP, n, p):
        ls = m.PLayers if isP else m.SLayers
        if not 0 <= n < len(ls):
            raise IndexError('no such layer')
        k = (bool(isP), n)
        if k not in tab:
            tab[k] = (w.real('time%s%d' % ('SP'[k[0]], n), 0, 1000),
                      w.real('dist%s%d' % ('SP'[k[0]], n), 0, 1))
        t, d = tab[k]
        return t + p * 0.5 ** (n + 1), d + p * 0.5 ** (n + 13)

    def layerTimeDist(sphericalRayParam, layerNum, isPWave):
        t, d = inc(isPWave, layerNum, sphericalRayParam)
        return TD(sphericalRayParam, t, d)
    m.layerTimeDist = layerTimeDist
    return inc


def chain(SL, depths, vals):
    """contiguous slowness layers through the given depths and slownesses"""
    return [SL(vals[i], depths[i], vals[i + 1], depths[i + 1])
            for i in range(len(depths) - 1)]


def zones(w, depths, vals):
    """Running minimum of a profile at its points: element i is the smallest
    of vals[0..i].  No forking: nested minima."""
    out = [vals[0]]
    for v in vals[1:]:
        out.append(w.min(out[-1], v))
    return out


class linear(object):
    """Within this context slowness inside a layer is interpolated linearly,
    a law with the properties C10 decides for the real one (between the ends,
    end values at the ends, depth and slowness inverse) but within reach of
    linear arithmetic."""

    def __init__(self, w):
        self.cls = w.T.SlownessLayer.SlownessLayer

    def __enter__(self):
        c = self.cls
        self.old = c.evaluateAtBullen, c.bullenDepthFor

        def evaluateAtBullen(self, depth, radiusOfEarth):
            if depth == self.topDepth:
                return self.topP
            if depth == self.botDepth:
                return self.botP
            return self.topP + (self.botP - self.topP) * (
                depth - self.topDepth) / (self.botDepth - self.topDepth)

        def bullenDepthFor(self, rayParam, radiusOfEarth):
            if rayParam == self.topP:
                return self.topDepth
            if rayParam == self.botP:
                return self.botDepth
            return self.topDepth + (self.botDepth - self.topDepth) * (
                rayParam - self.topP) / (self.botP - self.topP)
        c.evaluateAtBullen, c.bullenDepthFor = evaluateAtBullen, \
            bullenDepthFor
        return self

    def __exit__(self, *a):
        self.cls.evaluateAtBullen, self.cls.bullenDepthFor = self.old
        return False


_TM = {}


def taumodel(w):
    """a small concrete tau model made by the real constructors"""
    k = id(w.T)
    if k not in _TM:
        sm = smodel(w)
        sm.vMod.cmbDepth, sm.vMod.iocbDepth = 3000., 5000.
        _TM[k] = (w.T, w.T.TauModel.TauModel(sm))
    return _TM[k][1]


_BM = {}


def built(w, key):
    """concrete tau model from (depth, vp, vs) rows, made by the real
    constructors and kept; see MODELS"""
    k = (id(w.T), key)
    if k not in _BM:
        rows, moho, cmb, iocb, inner = MODELS[key]
        VM, VL = w.T.VelocityModel.VelocityModel, \
            w.T.VelocityLayer.VelocityLayer
        ls = []
        for a, b in zip(rows, rows[1:]):
            if a[0] != b[0]:
                ls.append(VL(len(ls), a[0] * 1.0, b[0] * 1.0, a[1] * 1.0,
                             b[1] * 1.0, a[2] * 1.0, b[2] * 1.0, 3., 3.))
        R = rows[-1][0] * 1.0
        vm = VM(key, R, moho * 1.0, cmb * 1.0, iocb * 1.0, 0., R, True, ls)
        sm = w.T.SlownessModel.SlownessModel(vm, .1, 5000., 5000., 10.,
                                             100., inner)
        _BM[k] = (w.T, w.T.TauModel.TauModel(sm))
    return _BM[k][1]


_CRUST, _CORE = [(0, 6, 3), (40, 6, 3)], [
    (3000, 8, 0), (5000, 10, 0), (5000, 11, 3), (6000, 11, 3)]
MODELS = {
    # key: rows, moho, cmb, iocb, S in the inner core
    'plain': (_CRUST + [(40, 8, 4), (3000, 13, 7)] + _CORE,
              40, 3000, 5000, True),
    'upper': (_CRUST + [(40, 8, 4), (400, 9, 5), (660, 10, 5.5),
                        (660, 11, 6), (3000, 13, 7)] + _CORE,
              40, 3000, 5000, True),
    'lvz-p': (_CRUST + [(40, 8, 4), (200, 8.2, 4.2), (200, 7, 4.25),
                        (300, 7.2, 4.3), (300, 9, 4.7), (3000, 13, 7)]
              + _CORE, 40, 3000, 5000, True),
    'lvz-s': (_CRUST + [(40, 8, 4.4), (200, 8.2, 4.5), (200, 8.3, 4),
                        (300, 8.5, 4.1), (300, 9, 4.7), (3000, 13, 7)]
              + _CORE, 40, 3000, 5000, True),
    'lvz-both': (_CRUST + [(40, 8, 4.4), (200, 8.2, 4.5), (200, 7, 4),
                           (300, 7.2, 4.1), (300, 9, 4.7), (3000, 13, 7)]
                 + _CORE, 40, 3000, 5000, True),
    'lvz-cmb': (_CRUST + [(40, 8, 4), (2500, 13, 7), (3000, 10.5, 5.6)]
                + _CORE, 40, 3000, 5000, True),
    'nomoho': ([(0, 8, 4), (3000, 13, 7)] + _CORE, 0, 3000, 5000, True),
    'noJ': (_CRUST + [(40, 8, 4), (3000, 13, 7)] + _CORE,
            40, 3000, 5000, False),
    'nocore': (_CRUST + [(40, 8, 4), (3000, 13, 7), (6000, 15, 8)],
               40, 6000, 6000, True),
}
