"""C04 discontinuities and the Moho/CMB/inner-core-boundary assignment."""
from symx.runner import Case
from . import common

ASSUMPTIONS = [common.REAL]


def mk(w, n, fluid):
    VM, VL = w.T.VelocityModel.VelocityModel, w.T.VelocityLayer.VelocityLayer
    d, layers, prev = [0.0], [], None
    for i in range(n):
        d.append(d[-1] + w.real('h%d' % i, 0.01, 6000))
        pt = w.real('pt%d' % i, 0.1, 20)
        st = w.real('st%d' % i, 0, 12)
        pb = w.real('pb%d' % i, 0.1, 20)
        sb = w.real('sb%d' % i, 0, 12)
        layers.append(VL(i, d[i], d[i + 1], pt, pb, st, sb))
    return VM, d, layers


def h_list(n):
    def f(w):
        VM, d, layers = mk(w, n, False)
        m = VM('m', d[-1], layers=layers)
        got = list(m.getDisconDepths())
        want = [d[0]]
        for i in range(n - 1):
            a, b = layers[i], layers[i + 1]
            if w.any(a.botPVelocity != b.topPVelocity,
                     a.botSVelocity != b.topSVelocity):
                want.append(d[i + 1])
        want.append(d[-1])
        w.check('number of discontinuities', len(got) == len(want))
        for x, y in zip(got, want):
            w.check('depth', w.close(x, y, 1e-9))
    return f


def h_fix(n):
    def f(w):
        VM, d, layers = mk(w, n, True)
        R = d[-1]
        moho, cmb, iocb = (w.real('moho', 0, 9000), w.real('cmb', 0, 9000),
                           w.real('iocb', 0, 9000))
        w.assume(iocb <= R)
        w.assume(cmb <= R)
        m = VM('m', R, moho, cmb, iocb, 0., R, True, layers)
        m.fixDisconDepths()
        dis, fl = [], []
        for i in range(n - 1):
            a, b = layers[i], layers[i + 1]
            jump = w.any(a.botPVelocity != b.topPVelocity,
                         a.botSVelocity != b.topSVelocity)
            dis.append((jump, d[i + 1]))
            fl.append((w.all(a.botSVelocity == 0, b.topSVelocity > 0),
                       d[i + 1]))

        def closest(x, nominal, cands, limit):
            return w.any(*[
                w.all(jc, x == c, abs(nominal - c) < limit,
                      *[w.implies(je, abs(nominal - c) <= abs(nominal - e))
                        for je, e in cands]) for jc, c in cands])

        def none(nominal, cands, limit):
            return w.all(*[w.implies(jc, abs(nominal - c) >= limit)
                           for jc, c in cands])
        w.observe('moho', m.mohoDepth)
        w.observe('cmb', m.cmbDepth)
        w.observe('iocb', m.iocbDepth)
        w.check('moho', w.any(closest(m.mohoDepth, moho, dis, 65.0),
                              w.all(none(moho, dis, 65.0),
                                    m.mohoDepth == 0)))
        w.check('cmb', w.any(closest(m.cmbDepth, cmb, dis, R),
                             w.all(none(cmb, dis, R), m.cmbDepth == R)))
        w.check('iocb', w.any(
            closest(m.iocbDepth, iocb, fl, R - 100),
            w.all(m.iocbDepth == R,
                  w.any(none(iocb, fl, R - 100),
                        closest(m.cmbDepth, iocb, fl, R - 100)))))
        w.check('cmb and iocb differ unless both at the centre',
                w.any(m.iocbDepth != m.cmbDepth, m.iocbDepth == R))
    return f


def h_files(w):
    """two files read one after the other; nominal depths of the defaults"""
    VM = w.T.VelocityModel.VelocityModel
    got = []
    for j, fixed in enumerate(w.choice('which', [
            (False, True), (True, False), (False, False)])):
        def r(name, lo, hi, v):
            return v + 4. * j if fixed else w.real(name + str(j), lo, hi)
        d = [0., r('a', 1, 90, 20.), r('b', 100, 600, 120.),
             r('c', 2000, 3000, 2900.), r('d', 3100, 3600, 3200.),
             r('e', 4500, 5500, 5200.), 6400.]
        v = [(6., 3.), (7., 4.), (8., 5.), (9., 0.), (10., 0.), (11., 4.)]
        lines = ['one', 'two']
        for i in range(6):
            for k in (i, i + 1):
                lines.append('%s %s %s 3' % (w.token(d[k]), v[i][0], v[i][1]))
        with common.TempFile('m%d.tvel' % j, '\n'.join(lines)) as path:
            got.append((d, VM.readVelocityFile(path)))
    for d, m in got:
        for x, y in ((m.mohoDepth, 35.), (m.cmbDepth, 2889.),
                     (m.iocbDepth, 5153.9)):
            if y == 5153.9:
                # the only place where a fluid lies on a solid
                w.check('inner core boundary', x == d[5])
                continue
            w.check('closest to the nominal depth', w.all(
                w.any(*[x == c for c in d[1:6]]),
                *[abs(x - y) <= abs(c - y) for c in d[1:6]]))


def cases(tier):
    ns = (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6)
    nf = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)
    return [Case('files', h_files, bounds='two files of 6 layers, any depths '
                 'of boundaries in one of them or both')] + \
        [Case('list%d' % n, h_list(n), bounds='%d layers' % n)
            for n in ns] + \
        [Case('fix%d' % n, h_fix(n), bounds='%d layers, symbolic nominal '
              'depths' % n, max_paths=6000, split=(12, 8) if n > 2 else None,
              secs=300 if tier == 'quick' else 1500)
         for n in nf]
