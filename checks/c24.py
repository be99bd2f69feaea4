"""C24 all arrivals of all requested phases, in order."""
from symx.runner import Case
from . import common, c13

ASSUMPTIONS = [
    common.REAL,
    'which arrivals a phase has is decided by C18: here up to two per phase '
    'at arbitrary times, or the real ones of a small concrete model',
    'coordinates become a distance as C23 decides']
A, B, C = c13.QUERIES
KINDS = (('TauP_Time', 'TauP_Time'), ('TauP_Pierce', 'TauP_Pierce'),
         ('TauP_Path', 'TauP_Path'))


class Skip(c13.phases):
    """phases of which some are not supported by the model"""

    def __init__(self, w, time, bad):
        c13.phases.__init__(self, w, time)
        self.bad = bad

    def __enter__(self):
        c13.phases.__enter__(self)
        init, bad, w = self.cls.__init__, self.bad, self.w

        def refuse(self, name, tMod):
            if bad(name):
                raise w.T.helper_classes.TauModelError('no ' + name)
            init(self, name, tMod)
        self.cls.__init__ = refuse
        return self


def same(w, got, want, order):
    """want: (name, time) of every arrival"""
    w.check('number of arrivals', len(got) == len(want))
    got = list(got)
    for n in sorted(set(n for n, _ in want)):
        # of one phase: as many as wanted, each at one of its times
        mine = [a for a in got if a.name == n]
        ts = [t for m, t in want if m == n]
        w.check('arrivals of ' + n, len(mine) == len(ts))
        for t in ts:
            w.check('none missing', w.any(*[a.time == t for a in mine]))
        for a in mine:
            w.check('none invented', w.any(*[a.time == t for t in ts]))
    if order:
        w.check('sorted by time', w.all(*[
            a.time <= b.time for a, b in zip(got, got[1:])]))


def expand(names):
    out = []
    for n in names:
        if n not in out:
            out.append(n)
    return out


def h_list(how, pool, size):
    """one query for any list of phases"""
    def f(w):
        names = [w.choice('name%d' % i, pool) for i in range(size)]
        bad = w.choice('unsupported', [''] + pool)
        times = {}

        def time(name, depth, degrees):
            if name not in times:
                times[name] = [w.real('t%s%d' % (name, i), 1, 5000)
                               for i in range(w.choice('n' + name,
                                                       [0, 1, 2]))]
                for x, y in zip(times[name], times[name][1:]):
                    w.assume(w.any(x - y > 0.125, y - x > 0.125))
            return times[name]
        with Skip(w, time, lambda n: n == bad):
            api = c13.model(w, c13.movable(w))
            got = getattr(api, how)(w.choice('depth', [0, 20.]),
                                    w.real('degrees', 0, 180), names)
            want = [(n, t) for n in expand(names) if n != bad
                    for t in time(n, 0, 0)]
            same(w, got, want, how == A)
    return f


def h_all(how):
    """group names: every member is asked for once"""
    def f(w):
        asked = []

        def time(name, depth, degrees):
            asked.append(name)
            return [w.real('t' + name, 1, 5000)] if len(asked) < 4 else []
        g = w.choice('group', ['ttp', 'tts+', 'ttbasic', 'ttall', None, []])
        with Skip(w, time, lambda n: n in ('SKS', 'Pn')):
            api = c13.model(w, c13.movable(w))
            given = [g] if g else g
            got = getattr(api, how)(10., 50., given)
            w.check('list given', given == ([g] if g else g))
            want = w.T.TauP_Time.parsePhaseList([g or 'ttall'])
            n = list(asked)
            w.check('every phase once', sorted(n) == sorted(
                x for x in set(want) if x not in ('SKS', 'Pn')))
            same(w, got, [(x, w.real('t' + x, 1, 5000)) for x in n[:3]],
                 how == A)
    return f


def h_again(kind):
    """queries one after the other on one calculator"""
    def f(w):
        def time(name, depth, degrees):
            return [degrees * 2.0 + len(name) * depth, 4000.0 - degrees *
                    len(name)]
        with Skip(w, time, lambda n: n == 'S'):
            mod, cls = kind
            c = getattr(getattr(w.T, mod), cls)(
                c13.movable(w), ['P'], w.choice('depth', [0, 10., 20.]),
                w.real('degrees', 1, 170))
            c.run()
            w.check('first', len(c.arrivals) == 2)
            for i in range(2):
                c.phaseList = w.choice('phases%d' % i, [
                    ['P', 'PcP'], ['S', 'PcP'], ['S'], ['PcP', 'P', 'PcP']])
                c.depth = w.choice('depth%d' % i, [0, 10., 20.])
                c.degrees = w.real('degrees%d' % i, 1, 170)
                c.run()
                want = [(n, t) for n in expand(c.phaseList) if n != 'S'
                        for t in time(n, c.depth, c.degrees)]
                same(w, c.arrivals, want, mod == 'TauP_Time')
    return f


def h_coords(w):
    """the three queries take coordinates alike; the distance is that of
    C23 whatever the query"""
    co = [w.choice('lat', [0., 13.]), w.choice('lon', [0., 100.]),
          w.choice('lat2', [0., 60., -13.]), w.choice('lon2', [0., 200.])]

    def time(name, depth, degrees):
        return [degrees * 2.0 + 1.0]
    with Skip(w, time, lambda n: n == 'S'):
        x = w.real('depth', 0, 700)
        d = w.T.TauP_Time.great_circle_dist((co[2], co[3]), (co[0], co[1]))
        for how in (A, B, C):
            api = c13.model(w, c13.movable(w))
            got = getattr(api, how)(x, phase_list=['P', 'S'],
                                    coordinate_list=co)
            w.check('one arrival', len(got) == 1)
            w.check('distance', w.close(got[0].time, time('P', 0, d)[0],
                                        1e-6))
            w.check('depth', w.close(got[0].sourceDepth, x, 1e-9))


def h_real(how, depth, names, lo, hi):
    """the arrivals of the phases themselves"""
    def f(w):
        with common.linear(w):
            body(w)

    def body(w):
        tm = c13.fresh(w)
        c13.c12.additive(w, tm.sMod, 2.0 ** -20)
        d = w.real('degrees', lo, hi)
        cm = tm.depthCorrect(depth) if depth else tm
        want = []
        for n in names:
            ex, ph = common.raises(w.T.SeismicPhase.SeismicPhase, n, cm)
            if not ex:
                want += [(n, a.time) for a in ph.calcTime(d)]
        got = getattr(c13.model(w, tm), how)(depth, d, list(names))
        same(w, got, want, how == A)
        for a in got:
            w.check('arrival', w.all(
                a.sourceDepth == depth, a.phase.name == a.name))
    return f


def cases(tier):
    q = tier == 'quick'
    out = []
    pool = ['P', 'S', 'PcP'] if q else ['P', 'S', 'PcP', 'SKS']
    for i, how in enumerate(c13.QUERIES):
        out.append(Case('list%d' % i, h_list(how, pool, 2 if q else 3),
                        split=(6, 6), secs=120 if q else 600,
                        bounds='lists of %d of %s, up to 2 arrivals each'
                        % (2 if q else 3, pool)))
        out.append(Case('all%d' % i, h_all(how),
                        bounds='group names, three arrivals'))
    for kind in KINDS:
        out.append(Case('again-' + kind[1], h_again(kind), split=(6, 6),
                        secs=120, bounds='three runs'))
    out.append(Case('coords', h_coords, split=(5, 4), bounds='24 pairs of points'))
    names = ['P', 'S', 'pP', 'PKIKP', 'Pdiff', 'PcP', 'Pn', 'PX', 'ScS',
             '4kmps']
    some = ['PX', 'pP', 'Pdiff', 'P', 'PcP']
    for i, how in enumerate(c13.QUERIES):
        for depth in (0, 20.) if q else (0, 20., 40., 1000.):
            out.append(Case(
                'real%d-%d' % (i, depth), h_real(
                    how, depth, some if q and depth else names, 0, 180),
                split=(8, 6), secs=150 if q else 600,
                bounds='source at %s km, 0 to 180 degrees, %s' % (
                    depth, ' '.join(some if q and depth else names))))
    return out
