"""C03 validation accepts exactly the well-formed models."""
from symx.runner import Case
from . import common

ASSUMPTIONS = [common.REAL, 'layer bottoms are not above their tops']


def h(n, what):
    def f(w):
        VM = w.T.VelocityModel.VelocityModel
        VL = w.T.VelocityLayer.VelocityLayer
        if what == 'header':
            R, moho, cmb, iocb, rmin, rmax = [
                w.real(k, -10, 10000)
                for k in ('R', 'moho', 'cmb', 'iocb', 'rmin', 'rmax')]
        else:
            R, moho, cmb, iocb, rmin, rmax = 6371., 35., 2889., 5153., 0., \
                6371.
        layers, spec = [], []
        for i in range(n):
            if what == 'header':
                v = [1000. * i, 1000. * (i + 1), 5., 6., 3., 3.]
            else:
                t, b = w.real('t%d' % i, 0, 9000), w.real('b%d' % i, 0, 9000)
                w.assume(t <= b)
                v = [t, b] + [w.real('%s%d' % (k, i), -5, 20)
                              for k in ('pt', 'pb', 'st', 'sb')]
            layers.append(VL(i, *v))
            if i:
                spec.append(layers[i - 1].botDepth == v[0])
            spec.append(v[0] < v[1])
            spec += [v[2] > 0, v[3] > 0, v[4] >= 0, v[5] >= 0,
                     w.iff(v[4] == 0, v[5] == 0)]
        spec += [R > 0, moho >= 0, cmb >= moho, cmb > 0, iocb >= cmb,
                 iocb > 0, rmin >= 0, rmax > 0, rmax > rmin]
        m = VM('m', R, moho, cmb, iocb, rmin, rmax, True, layers)
        got = bool(m.validate())
        w.observe('verdict', got)
        w.check('accepts iff well formed', w.iff(got, w.all(*spec)))
    return f


def cases(tier):
    ns = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)
    return [Case('header', h(2, 'header'),
                 bounds='all six header numbers in [-10,10000]')] + \
        [Case('layers%d' % n, h(n, 'layers'),
              bounds='%d layers, depths [0,9000], velocities [-5,20]' % n)
         for n in ns]
