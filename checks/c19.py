"""C19 angles and units of an arrival."""
import copy
import math

from symx.runner import Case
from . import common

ASSUMPTIONS = [
    common.REAL, common.MATHAX,
    'the source lies above the centre of the Earth',
    'layer boundaries, source depths and phases are a fixed set; velocities '
    'and ray parameters are symbolic; the ray parameter of the arrival '
    'itself is decided by C18']
PI = math.pi
R = 6000.
DEPTHS = [0., 40., 3000., 5000., 6000.]


def world(w, depth):
    """tau model of a source depth with arbitrary velocities"""
    tm = common.taumodel(w)
    if depth:
        tm = tm.depthCorrect(depth)
    tm = copy.copy(tm)
    tm.sMod = copy.copy(tm.sMod)
    tm.sMod.vMod = copy.copy(tm.sMod.vMod)
    VL = w.T.VelocityLayer.VelocityLayer
    ls, at = [], []
    for i in range(4):
        v = {}
        for k in 'ps':
            for e in 'tb':
                v[k + e] = w.real('v%s%s%d' % (k, e, i), .5, 20)
        at.append(v)
        ls.append(VL(i, DEPTHS[i], DEPTHS[i + 1], v['pt'], v['pb'], v['st'],
                     v['sb'], 3., 3.))
    tm.sMod.vMod.layers = ls
    return tm, at


def velocity(at, depth, wave, below):
    """profile on one side of a depth"""
    for i in range(4):
        a, b = DEPTHS[i], DEPTHS[i + 1]
        if (a <= depth < b) if below else (a < depth <= b):
            v = at[i]
            return v[wave + 't'] + (v[wave + 'b'] - v[wave + 't']) * (
                depth - a) / (b - a)


def h_angle(depth, name):
    first, last = {
        'P': 'pp', 'S': 'ss', 'p': 'pp', 's': 'ss', 'pP': 'pp', 'sP': 'sp',
        'pS': 'ps', 'PS': 'ps', 'SP': 'sp', 'PcS': 'ps', 'ScP': 'sp',
        'SKS': 'ss', 'SKP': 'sp', 'PKIKP': 'pp', 'sSKKS': 'ss', 'Pn': 'pp',
        'PnS': 'ps', 'Sn': 'ss', 'Sg': 'ss', 'Pdiff': 'pp', 'SdiffP': 'sp',
        'Pvmp': 'pp', 'Svms': 'ss', 'P40s': 'ps', 'p^0P': 'pp'}[name]
    up = name[0] in 'ps'

    def f(w):
        # the phase in another model before
        o = common.taumodel(w)
        if depth:
            o = o.depthCorrect(depth)
        o = w.T.SeismicPhase.SeismicPhase(name, o)
        o.rayParams, o.dist, o.time = [5., 5.], [.5, 1.5], [10., 20.]
        o.minDistance, o.maxDistance = .5, 1.5
        o.calcTime(57.5)
        tm, at = world(w, depth)
        ph = w.T.SeismicPhase.SeismicPhase(name, tm)
        p = w.real('p', 0, 9000)
        ph.rayParams, ph.dist, ph.time = [p, p], [.5, 1.5], [10., 20.]
        ph.minDistance, ph.maxDistance = .5, 1.5
        got = ph.calcTime(57.5)
        w.check('one arrival', len(got) == 1)
        a = got[0]
        x = velocity(at, depth, first, not up) * p / (R - depth)
        x = w.min(x, 1)
        w.check('take-off angle', w.all(
            w.close(w.math.sin(a.takeoffAngle * PI / 180),
                    -x if up else x, 1e-6),
            a.takeoffAngle <= 90.000001, a.takeoffAngle >= -90.000001))
        y = w.min(velocity(at, 0, last, True) * p / R, 1)
        w.check('incident angle', w.all(
            w.close(w.math.sin(a.incidentAngle * PI / 180), y, 1e-6),
            a.incidentAngle <= 90.000001, a.incidentAngle >= -1e-6))
        w.check('depth of the source', a.sourceDepth == depth)
    return f


def h_units(w):
    d = w.real('dist', 0, 50)
    p = w.real('p', 0, 9000)
    dep = w.real('depth', 0, 700)
    a = w.T.Arrival.Arrival(None, 1., d, p, 0, 'P', 'P', dep, 10., 10.)
    deg = d * 180 / PI
    w.check('degrees', w.close(a.getDistDeg(), deg, 1e-6))
    w.check('degrees travelled', w.close(a.purist_distance, deg, 1e-6))
    w.check('per degree', w.close(a.rayParam_sec_degree * 180 / PI, p, 1e-6))
    m = a.getModuloDistDeg()
    w.check('between 0 and 180', w.all(m >= -1e-6, m <= 180.000001))
    w.check('same place', w.any(*[w.any(w.close(m, deg - 360 * k, 1e-6),
                                        w.close(m, 360 * k - deg, 1e-6))
                                  for k in range(0, 10)]))


PHASES = {
    0.: ['P', 'S', 'PS', 'SP', 'PcS', 'ScP', 'SKS', 'SKP', 'PKIKP', 'Pn',
         'PnS', 'Sn', 'Sg', 'Pdiff', 'SdiffP', 'Pvmp', 'Svms', 'P40s'],
    20.: ['P', 'S', 'p', 's', 'pP', 'sP', 'pS', 'PS', 'ScP', 'sSKKS', 'SKS',
          'Pn', 'Sn', 'Sg', 'Pdiff', 'Pvmp', 'Svms', 'p^0P'],
    40.: ['P', 'S', 'p', 's', 'pP', 'sP', 'pS', 'PS', 'PcS', 'SKS'],
    1000.: ['P', 'S', 'p', 's', 'pP', 'sP', 'pS', 'SP', 'ScP', 'PKIKP',
            'Pdiff', 'sSKKS'],
    3000.: ['p', 's', 'pP', 'pS', 'sP'],
    4000.: ['p', 'pP', 'pS'],
    5500.: ['p'],
}


def cases(tier):
    q = tier == 'quick'
    out = []
    for depth in sorted(PHASES):
        for n in PHASES[depth]:
            out.append(Case('angle-%d-%s' % (depth, n), h_angle(depth, n),
                            nl=True, bounds='source at %d km, %s; velocities '
                            '0.5 to 20 km/s, p up to 9000 s/rad' % (depth,
                                                                    n)))
    out.append(Case('units', h_units, bounds='distance up to 50 rad'))
    return out
