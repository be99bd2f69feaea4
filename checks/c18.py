"""C18 arrivals of a phase at a distance."""
import math

from symx.runner import Case
from . import common

ASSUMPTIONS = [
    common.REAL,
    'curve samples are arbitrary; distances searched are equal to a sample '
    'only where stated, otherwise more than 1e-6 rad away from every sample',
    'angles of arrivals are decided by C19']
PI = math.pi


class NoVelocity(object):
    """angles do not matter here"""

    def evaluateBelow(self, *a, **k):
        return 0.0
    evaluateAbove = evaluateBelow


def phase(w, dist, time, rp, name='P'):
    import copy
    tm = copy.copy(common.taumodel(w))
    tm.sMod = copy.copy(tm.sMod)
    ph = w.T.SeismicPhase.SeismicPhase(name, tm)
    tm.sMod.vMod = NoVelocity()
    ph.dist, ph.time, ph.rayParams = list(dist), list(time), list(rp)
    ph.minDistance, ph.maxDistance = w.min(*dist), w.max(*dist)
    return ph


def searched(w, deg, top):
    """every distance up to top that looks like deg on the sphere"""
    d = abs(deg)
    while d > 360:
        d = d - 360
    if d > 180:
        d = 360 - d
    out = [(0, d * PI / 180)]
    k = 1
    while 2 * PI * k - PI <= top:
        if d > 0:
            if d < 180:
                out.append((k, 2 * PI * k - d * PI / 180))
            out.append((k, 2 * PI * k + d * PI / 180))
        else:
            out.append((k, 2 * PI * k + 0.0))
        k += 1
    return [s for _, s in out]


def points(w, ss, dist, time, rp, shadow):
    """the points of the curve at the distances ss, each once"""
    n = len(dist)
    out = []
    for s in ss:
        for i in range(n - 1):
            if i in shadow:
                continue
            a, b = dist[i], dist[i + 1]
            if w.not_(w.any(w.all(a <= s, s <= b), w.all(b <= s, s <= a))):
                continue
            if i > 0 and (i - 1) not in shadow and s == a:
                continue
            r = (s - a) / (b - a)
            out.append((s, time[i] + r * (time[i + 1] - time[i]),
                        rp[i] + r * (rp[i + 1] - rp[i])))
    return out


def compare(w, got, want):
    w.check('number of arrivals', len(got) == len(want))

    def eq(a, p, tol):
        return w.all(w.close(a.dist, p[0], tol), w.close(a.time, p[1], tol),
                     w.close(a.rayParam, p[2], tol))
    for p in want:
        w.check('every point of the curve arrives',
                w.any(*[eq(a, p, 1e-5) for a in got]))
    for a in got:
        w.check('every arrival is a point of the curve',
                w.any(*[eq(a, p, 1e-5) for p in want]))


def curve(w, n, shadow, top):
    rp = [w.real('p0', 10, 1000)]
    for i in range(1, n):
        rp.append(rp[-1] if i - 1 in shadow else
                  rp[-1] - w.real('dp%d' % i, 1, 50))
    dist = [w.real('d%d' % i, 0, top) for i in range(n)]
    time = [w.real('t%d' % i, 0, 5000) for i in range(n)]
    return dist, time, rp


def h(n, shadow, lo, hi, top):
    def f(w):
        dist, time, rp = curve(w, n, shadow, top)
        deg = w.real('degrees', lo, hi)
        for a, b in zip(dist, dist[1:]):
            w.assume(w.any(a - b > 0.001, b - a > 0.001))
        # whole turns, half turns and sample distances: h_hit
        w.assume(w.all(*[w.any(deg < 180 * k - 1e-4, deg > 180 * k + 1e-4)
                         for k in range(-8, 9)]))
        ss = searched(w, deg, top)
        for s in ss:
            w.assume(w.all(*[w.any(s - d > 1e-6, d - s > 1e-6)
                             for d in dist]))
        ph = phase(w, dist, time, rp)
        got = ph.calcTime(deg)
        w.check('phase', w.all(*[a.phase is ph for a in got]))
        w.check('name', w.all(*[a.name == 'P' for a in got]))
        compare(w, got, points(w, ss, dist, time, rp, shadow))
        w.check('samples the arrival lies between', w.all(*[w.any(
            w.all(ph.dist[a.rayParamIndex] <= a.dist,
                  a.dist <= ph.dist[a.rayParamIndex + 1]),
            w.all(ph.dist[a.rayParamIndex] >= a.dist,
                  a.dist >= ph.dist[a.rayParamIndex + 1])) for a in got]))
    return f


def h_hit(n, shadow, degs):
    """a sample of the curve exactly at the distance"""
    def f(w):
        deg = w.choice('degrees', degs)
        j = w.choice('sample', list(range(n)))
        dist, time, rp = curve(w, n, shadow, 10)
        d = abs(deg) % 360
        hit = (d if d <= 180 else 360 - d) * PI / 180
        dist[j] = w.choice('lap', [hit, 2 * PI + hit])
        for a, b in zip(dist, dist[1:]):
            w.assume(w.any(a - b > 0.001, b - a > 0.001))
        ss = searched(w, deg, 10)
        for s in ss:
            w.assume(w.all(*[w.any(s == x, s - x > 1e-6, x - s > 1e-6)
                             for x in dist]))
        ph = phase(w, dist, time, rp)
        compare(w, ph.calcTime(deg),
                points(w, ss, dist, time, rp, shadow))
    return f


def h_two(w):
    """two samples of one ray parameter: a head or diffracted wave"""
    dist, time, rp = curve(w, 2, {0}, 7)
    deg = w.real('degrees', 1, 179)
    w.assume(dist[0] + 0.001 < dist[1])
    ss = searched(w, deg, 7)
    for s in ss:
        w.assume(w.all(*[w.any(s - d > 1e-6, d - s > 1e-6) for d in dist]))
    ph = phase(w, dist, time, rp)
    compare(w, ph.calcTime(deg), points(w, ss, dist, time, rp, ()))


def h_again(w):
    """other distances and another phase searched before"""
    dist, time, rp = curve(w, 3, (), 6)
    other = phase(w, [0.25, 0.5, 3.5], [1., 2., 3.], [9., 8., 7.])
    deg, first = w.real('degrees', 1, 179), w.real('first', 1, 179)
    w.assume(w.all(dist[0] + 0.001 < dist[1], dist[1] + .001 < dist[2]))
    ss = searched(w, deg, 6)
    for s in ss + searched(w, first, 6):
        w.assume(w.all(*[w.any(s - d > 1e-6, d - s > 1e-6)
                         for d in dist + [.25, .5, 3.5]]))
    ph = phase(w, dist, time, rp)
    other.calcTime(deg)
    early = ph.calcTime(first)
    kept = [(a.dist, a.time, a.rayParam, a.rayParamIndex) for a in early]
    got = ph.calcTime(deg)
    compare(w, got, points(w, ss, dist, time, rp, ()))
    w.check('arrivals found before', w.all(*[
        w.all(a.dist == k[0], a.time == k[1], a.rayParam == k[2],
              a.rayParamIndex == k[3]) for a, k in zip(early, kept)]))


def h_flat(w):
    """samples at one distance: all rays between them arrive there"""
    d0, t0, t1 = w.choice('d', [0.5, PI]), w.real('t0', 0, 10), \
        w.real('t1', 0, 10)
    ph = phase(w, [d0, d0], [t0, t1], [9., 8.])
    deg = w.choice('degrees', [28., 180.])
    got = ph.calcTime(deg)
    hit = d0 == deg * PI / 180
    w.check('arrivals exactly at this distance', (len(got) > 0) == hit)
    for a in got:
        w.check('one of these rays', w.any(
            w.all(a.time >= t0, a.time <= t1),
            w.all(a.time >= t1, a.time <= t0)))


def h_none(w):
    """a phase without rays"""
    ph = phase(w, [0.1, 0.2], [1., 2.], [9., 8.])
    ph.dist, ph.time, ph.rayParams = [], [], []
    ph.maxDistance = -1
    w.check('no arrivals', ph.calcTime(w.real('degrees', -400, 800)) == [])


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(name, n, shadow, lo, hi, top, secs=100):
        out.append(Case(
            'curve-' + name, h(n, shadow, lo, hi, top), split=(12, 8),
            secs=secs, bounds='%d samples, shadow zone at %s, %s to %s '
            'degrees, curve up to %s rad' % (n, sorted(shadow) or 'none',
                                             lo, hi, top)))
    add('wide', 2, (), -750, 750, 7)
    add('laps', 2, (), 0, 180, 20)
    add('three', 3, (), 0, 180, 6)
    add('long', 3, (), 0, 180, 9)
    add('shadow', 4, {1}, 0, 180, 6)
    add('shadow0', 3, {0}, 0, 180, 4)
    if not q:
        add('four', 4, (), 0, 180, 12, 800)
        add('five', 5, {2}, 0, 180, 6, 800)
        add('laps2', 2, (), -1500, 1500, 40, 800)
    some = [0., 90., 180., -360., 270., 540.]
    for n, sh, degs in ((2, (), some), (3, (), some), (3, {0}, some),
                        (4, {1}, [0., 270.] if q else some)) + (
                            () if q else ((4, (), [0., 180., 270.]),)):
        out.append(Case('hit%d%s' % (n, 's' if sh else ''),
                        h_hit(n, sh, degs), split=(6, 6),
                        secs=100 if q else 600,
                        bounds='%d samples, one at the distance' % n))
    out += [Case('two', h_two, bounds='curve up to 7 rad'),
            Case('again', h_again, split=(8, 4), bounds='3 samples, curve up '
                 'to 6 rad, any distance searched before'),
            Case('flat', h_flat, bounds='two samples'),
            Case('none', h_none, bounds='-400 to 800 degrees')]
    return out
