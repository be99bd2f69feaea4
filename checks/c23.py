"""C23 epicentral distance from coordinates."""
import math

from symx.runner import Case
from . import common

ASSUMPTIONS = [common.REAL, common.MATHAX,
               'sin and cos of different angles are related by periodicity, '
               'parity and sin^2 + cos^2 = 1 only']
D = math.pi / 180


def setup(w):
    lat = [w.real('lat%s' % c, -90, 90) for c in 'AB']
    lon = [w.real('lon%s' % c, -360, 360) for c in 'AB']
    return [(lat[i], lon[i]) for i in (0, 1)]


def dist(w, a, b):
    ex, r = common.raises(w.T.TauP_Time.great_circle_dist, a, b)
    w.check('defined for all coordinates', not ex)
    w.check('between 0 and 180', w.all(r >= -1e-9, r <= 180 + 1e-9))
    return r


def h_angle(w):
    (la, oa), (lb, ob) = a, b = setup(w)
    r = dist(w, a, b)
    w.observe('distance', r)
    s, c = w.math.sin, w.math.cos
    want = s(la * D) * s(lb * D) + c(la * D) * c(lb * D) * c((ob - oa) * D)
    w.check('the great-circle angle', w.close(
        w.math.cos(r * D), want, 1e-7) if not w.sym else w.any(
            w.close(c(r * D), want, 1e-9), w.all(want > 1, r == 0),
            w.all(want < -1, w.close(r, 180, 1e-9))))


def h_sym(w):
    a, b = setup(w)
    w.check('symmetric', w.close(dist(w, a, b), dist(w, b, a), 1e-5))


def h_turn(w):
    a, b = setup(w)
    k = w.choice('turns', [-2, -1, 1, 2])
    r = dist(w, a, b)
    if w.bool('of A'):
        q = dist(w, (a[0], a[1] + 360. * k), b)
    else:
        q = dist(w, a, (b[0], b[1] + 360. * k))
    w.check('independent of whole turns',
            w.close(r, q, 1e-5) if w.sym else w.close(
                math.cos(r * D), math.cos(q * D), 1e-9))


def h_zero(w):
    la, oa = w.real('lat', -90, 90), w.real('lon', -360, 360)
    r = dist(w, (la, oa), (la, oa + w.choice('turns', [0., 360., -360.])))
    w.check('coincident points', w.close(r, 0, 1e-5))


def h_pole(w):
    """from a pole the distance is the difference in latitude"""
    la, o1, o2 = w.real('lat', -89, 89), w.real('o1', -360, 360), \
        w.real('o2', -360, 360)
    up = w.bool('north')
    r = dist(w, (la, o1), (90. if up else -90., o2))
    w.check('from the pole', w.close(
        w.math.cos(r * D), w.math.sin(la * D) * (1 if up else -1), 1e-7))


def h_apart(w):
    """zero only for coincident points"""
    a, b = setup(w)
    r = dist(w, a, b)
    s = w.math.sin
    w.assume(r == 0)
    w.check('same latitude', w.close(s(a[0] * D), s(b[0] * D), 1e-4))


def h_query(w):
    """coordinates given to a query: source first, then receiver"""
    tm = common.taumodel(w)
    cls = w.choice('kind', ['TauP_Time', 'TauP_Pierce', 'TauP_Path'])
    (la, oa), (lb, ob) = setup(w)
    T = w.T
    got = {}
    K = getattr(getattr(T, cls), cls)

    class Probe(K):
        def calculate(self, degrees):
            got['deg'] = degrees
    tt = Probe(tm, ['P'], 0., None, [la, oa, lb, ob])
    tt.run()
    ex, want = common.raises(T.TauP_Time.great_circle_dist, (lb, ob),
                             (la, oa))
    w.check('the distance between the points', w.all(
        not ex, w.close(got['deg'], want, 1e-6)))
    none = w.choice('missing', [0, 1, 2, 3])
    part = [la, oa, lb, ob]
    part[none] = None
    ex, e = common.raises(Probe(tm, ['P'], 0., None, part).run)
    w.check('incomplete coordinates are rejected',
            ex and isinstance(e, ValueError))
    d = w.real('deg', 0, 720)
    Probe(tm, ['P'], 0., d, [la, oa, lb, ob]).run()
    w.check('a given distance is used as it is', got['deg'] == d)


def cases(tier):
    B = 'all latitudes, longitudes -360 to 360'
    return [Case('angle', h_angle, nl=True, bounds=B),
            Case('symmetric', h_sym, nl=True, bounds=B),
            Case('turns', h_turn, nl=True, bounds=B + ', one or two turns'),
            Case('coincident', h_zero, nl=True, bounds=B),
            Case('pole', h_pole, nl=True, bounds=B),
            Case('apart', h_apart, nl=True, bounds=B, min_checks=0),
            Case('query', h_query, nl=True, bounds=B)]
