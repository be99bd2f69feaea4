"""C25 surface waves."""
import copy
import math

from symx.runner import Case
from . import common, c13

ASSUMPTIONS = [common.REAL,
               'speeds are a fixed set of names; radius, distance and source '
               'depth are symbolic']
PI = math.pi
SPEEDS = ['4', '3.5', '0.25', '25', '1.', '.5', '2.75']


def reached(w, deg):
    """distances within one turn that are deg away"""
    d = deg * PI / 180
    if deg == 0:
        return [d, 2 * PI]
    if deg == 180:
        return [d]
    return [d, 2 * PI - d]


def correct(w, got, ds, R, v, name, depth):
    w.check('number of arrivals', len(got) == len(ds))
    for d in ds:
        w.check('arrives', w.any(*[w.close(a.dist, d, 1e-6) for a in got]))
    for a in got:
        w.check('distance', w.any(*[w.close(a.dist, d, 1e-6) for d in ds]))
        w.check('time', w.close(a.time, R * a.dist / v, .01))
        w.check('ray parameter', w.close(a.rayParam, R / v, 1e-4))
        w.check('name', w.all(a.name == name, a.puristName == name))
        w.check('source', a.sourceDepth == depth)


def along(w, pts, a, R, v, depth):
    """along the surface, from the source to the receiver"""
    w.check('points', len(pts) >= 2)
    w.check('start', w.all(pts[0].time == 0, pts[0].distRadian == 0,
                           w.any(pts[0].depth == 0, pts[0].depth == depth)))
    w.check('on the surface', w.all(*[t.depth == 0 for t in pts[1:]]))
    w.check('at its speed', w.all(*[w.close(
        t.time, R * t.distRadian / v, .02) for t in pts]))
    w.check('forward', w.all(*[x.distRadian <= y.distRadian
                               for x, y in zip(pts, pts[1:])]))
    w.check('end', w.all(w.close(pts[-1].time, a.time, .02),
                         w.close(pts[-1].distRadian, a.dist, 1e-6)))


def h_phase(w):
    v = w.choice('speed', SPEEDS)
    R = w.real('R', 100, 20000)
    depth = w.choice('depth', [0., 20., 3000.])
    tm = common.taumodel(w)
    if depth:
        tm = tm.depthCorrect(depth)
    # the phase in another model before
    name = v + 'kmps'
    old = w.T.SeismicPhase.SeismicPhase(name, tm).calcTime(37.)
    correct(w, old, reached(w, 37.), 6000., float(v), name, depth)
    tm = copy.copy(tm)
    tm.radiusOfEarth = R
    tm.sMod = copy.copy(tm.sMod)
    tm.sMod.radiusOfEarth = R
    ph = w.T.SeismicPhase.SeismicPhase(name, tm)
    deg = w.choice('end', [0., 180., None])
    if deg is None:
        deg = w.real('degrees', 0, 180)
        w.assume(deg > .0009765625)
        w.assume(deg < 179.5)
    got = ph.calcTime(deg)
    correct(w, got, reached(w, deg), R, float(v), name, depth)
    for a in old:
        along(w, a.getPierce(), a, 6000., float(v), depth)
        along(w, a.getPath(), a, 6000., float(v), depth)
    for a in got:
        along(w, a.getPierce(), a, R, float(v), depth)
        along(w, a.getPath(), a, R, float(v), depth)


def h_query(how):
    def f(w):
        v = w.choice('speed', SPEEDS[:3])
        depth = w.choice('depth', [0., 20., 40.])
        deg = w.real('degrees', 0, 180)
        w.assume(deg > .0009765625)
        w.assume(deg < 179.5)
        name = v + 'kmps'
        got = getattr(c13.model(w, c13.fresh(w)), how)(depth, deg, [name])
        correct(w, got, reached(w, deg), 6000., float(v), name, depth)
        for a in got:
            if how == c13.QUERIES[1]:
                along(w, a.pierce, a, 6000., float(v), depth)
            if how == c13.QUERIES[2]:
                along(w, a.path, a, 6000., float(v), depth)
    return f


def h_bad(w):
    """names without a positive finite speed are no phases"""
    n = w.choice('name', ['kmps', '0kmps', '-3kmps', 'infkmps', 'nankmps',
                          '1.2.3kmps', 'Pkmps', '1e400kmps'])
    ex, e = common.raises(w.T.SeismicPhase.SeismicPhase, n,
                          common.taumodel(w))
    w.check('rejected', ex)
    w.check('model error', isinstance(
        e, w.T.helper_classes.TauModelError))


def cases(tier):
    out = [Case('phase', h_phase, split=(4, 4),
                bounds='speeds %s, radius 100 to 20000 km' % SPEEDS)]
    for i, how in enumerate(c13.QUERIES):
        out.append(Case('query%d' % i, h_query(how), split=(4, 2),
                        bounds='three speeds and source depths'))
    out.append(Case('names', h_bad, bounds='8 names'))
    return out
