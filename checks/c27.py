"""C27 printed listings show the computed results."""
from symx.runner import Case
from . import common, c13

ASSUMPTIONS = [
    common.REAL,
    'the text of a number is a token standing for the number itself; the '
    'rounding of the format is checked on the replays only',
    'which arrivals, pierce points and path points there are is decided by '
    'C18, C20 and C21: here arbitrary ones']
DEG = 57.29577951308232


class arrivals(c13.phases):
    """phases with arbitrary arrivals: make(phase) -> list of Arrival"""

    def __init__(self, w, make):
        c13.phases.__init__(self, w, None)
        self.make = make

    def __enter__(self):
        c13.phases.__enter__(self)
        make = self.make
        for n in ('calcTime', 'calcPierce', 'calcPath'):
            setattr(self.cls, n, lambda self, degrees: make(self))
        for n in ('calcPierceFromArrival', 'calcPathFromArrival'):
            setattr(self.cls, n, lambda self, a: a)
        return self


def arrival(w, phase, k, hi=7.):
    A = w.T.Arrival.Arrival
    n = '%s%d' % (phase.name, k)
    return A(phase, w.real('t' + n, 0, 5000), w.real('d' + n, 0, hi),
             w.real('p' + n, 0, 3000), 0, phase.name,
             w.choice('purist' + n, [phase.name, 'X']), phase.sourceDepth,
             w.real('out' + n, -90, 90), w.real('in' + n, 0, 90))


def query(w, kind, names, depth, make):
    with arrivals(w, make):
        cls = getattr(getattr(w.T, kind), kind)
        q = cls(c13.movable(w), names, depth, 50.)
        with w.capture() as out:
            q.run(True)
    return q, out


def close(w, x, y, dec):
    return w.close(x, y, 1.1 * 10 ** -dec)


def h_table(names, via):
    """the table of arrivals"""
    def f(w):
        depth = w.real('depth', 0, 700)
        every = []

        def make(phase):
            out = [arrival(w, phase, k) for k in range(
                w.choice('n' + phase.name, [1, 2] if len(names) < 2
                         else [0, 1]))]
            every.extend((a, [a.time, a.dist, a.rayParam, a.takeoffAngle,
                              a.incidentAngle]) for a in out)
            return out
        if via == 'api':
            with arrivals(w, make), w.capture() as out:
                c13.model(w, c13.movable(w)).get_travel_times(
                    depth, 50., names, print_output=True)
        else:
            q, out = query(w, 'TauP_Time', names, depth, make)
            w.check('all are in the result',
                    len(q.arrivals) == len(every))
        lines = [l.split() for l in out.text.split('\n')]
        lines = [l for l in lines if len(l) == 10 and l[8] in '=*']
        w.check('one line per arrival', len(lines) == len(every))
        num = out.number
        left = list(range(len(every)))
        prev = None
        for l in lines:
            # the line belongs to an arrival not seen yet
            t = num(l[3])
            match = [i for i in left if every[i][0].name == l[2]]
            i = next((i for i in match if t is every[i][1][0] or bool(
                w.possible(t == every[i][1][0])) and bool(
                close_bool(w, t, every[i][1][0]))), None)
            w.check('line of an arrival', i is not None)
            left.remove(i)
            a, (t0, d0, p0, o0, i0) = every[i]
            w.check('time', close(w, t, t0, 2))
            w.check('depth', close(w, num(l[1]), depth, 1))
            w.check('ray parameter', close(w, num(l[4]), p0 / DEG, 3))
            w.check('take-off angle', close(w, num(l[5]), o0, 2))
            w.check('incident angle', close(w, num(l[6]), i0, 2))
            w.check('distance along the ray', close(w, num(l[7]), d0 * DEG,
                                                    2))
            # between 0 and 180, the distance along the ray or its mirror
            # image up to whole circles
            x, full = num(l[0]), d0 * DEG
            w.check('distance', w.all(
                x >= -0.01, x <= 180.01,
                w.any(*[w.any(close(w, x, full - 360 * k, 2),
                              close(w, x, 360 * k - full, 2))
                        for k in range(4)])))
            w.check('purist name', w.all(l[9] == a.puristName, (
                l[8] == '=') == (a.name == a.puristName)))
            if prev is not None:
                w.check('in order of time', prev <= t)
            prev = t
        for a, (t0, d0, p0, o0, i0) in every:
            w.check('printing changes nothing', w.all(
                a.time == t0, a.dist == d0, a.rayParam == p0,
                a.takeoffAngle == o0, a.incidentAngle == i0))
    return f


def close_bool(w, a, b):
    return w.any(close(w, a, b, 2))


def points(w, n, depth, step, least=0):
    """a time-ordered curve"""
    TD = w.T.helper_classes.TimeDist
    out, t, d = [TD(1., 0., 0., depth)], 0., 0.
    for i in range(1, n):
        t = t + w.real('dt%d' % i, 0.5, 500)
        d = d + w.real('dd%d' % i, least, step)
        out.append(TD(1., t, d, w.real('z%d' % i, 0, 6000)
                      if i < n - 1 else 0.))
    return out


def listing(out):
    """(header lines, rows of numbers)"""
    heads, rows = [], []
    for l in out.text.split('\n'):
        if l.startswith('>'):
            heads.append(l)
            rows.append([])
        elif l.strip() and heads:
            rows[-1].append([out.number(x) for x in l.split()])
    return heads, rows


def h_header(kind):
    def f(w):
        depth = w.real('depth', 0, 700)
        every = []

        def make(phase):
            a = arrival(w, phase, 0)
            a.pierce = points(w, 2, depth, 0.01)
            a.path = a.pierce
            every.append(a)
            return [a]
        names = ['P', 'ScS']
        q, out = query(w, kind, names, depth, make)
        heads, rows = listing(out)
        w.check('one listing per arrival', len(heads) == len(every) == 2)
        for a, h in zip(q.arrivals, heads):
            words = h.split()
            # > name[(purist)] at T seconds at D degrees for a Z km ...
            w.check('name', words[1] == a.name + (
                '' if a.name == a.puristName else
                '(%s)' % a.puristName))
            n = out.number
            w.check('numbers', w.all(
                close(w, n(words[words.index('seconds') - 1]), a.time, 2),
                close(w, n(words[words.index('degrees') - 1]), a.dist * DEG,
                      2),
                close(w, n(words[words.index('km') - 1]), depth, 6),
                close(w, n(words[words.index('rayParam') + 1]),
                      a.rayParam / DEG, 3)))
    return f


def around(w, d):
    """the long way round (distance in radians)"""
    deg = d * DEG
    for k in range(5):
        w.assume(w.any(deg - 180 * k > 0.01, deg - 180 * k < -0.01))
    return w.any(w.all(deg > 180, deg < 360),
                 w.all(deg > 540, deg < 720))


def h_pierce(n, select):
    """the listing of pierce points"""
    def f(w):
        depth = w.real('depth', 0, 700)

        def make(phase):
            a = arrival(w, phase, 0, hi=11.)
            a.pierce = points(w, n, depth, 4.)
            a.dist = a.pierce[-1].distRadian
            return [a]
        with arrivals(w, make):
            q = w.T.TauP_Pierce.TauP_Pierce(c13.movable(w), ['P'], depth,
                                            50.)
            if select:
                setattr(q, select, True)
            with w.capture() as out:
                q.run(True)
        a = q.arrivals[0]
        long = around(w, a.dist)
        heads, rows = listing(out)
        rows = rows[0]
        z = [p.depth for p in a.pierce]
        must, may = [], []
        for j in range(n):
            if not select:
                must.append(True)
                may.append(True)
                continue
            if j == 0 or j == n - 1:
                # ends: not specified
                must.append(False)
                may.append(True)
                continue
            w.assume(w.any(z[j] - z[j - 1] > 1e-3, z[j - 1] - z[j] > 1e-3))
            low = bool(w.all(z[j] > z[j - 1], z[j] > z[j + 1]))
            high = bool(w.all(z[j] < z[j - 1], z[j] < z[j + 1]))
            flat = bool(z[j] == z[j + 1])
            yes = {'onlyTurnPoints': low, 'onlyUnderPoints': high,
                   'onlyRevPoints': low or high}[select]
            must.append(yes)
            may.append(yes or flat)
        # the rows are a subsequence of the points with all that must be
        i = 0
        for j, p in enumerate(a.pierce):
            s = -1 if bool(long) else 1
            here = i < len(rows) and bool(w.all(
                close(w, rows[i][0], p.distRadian * DEG * s, 2),
                close(w, rows[i][1], p.depth, 1),
                close(w, rows[i][2], p.time, 1)))
            if must[j]:
                w.check('point printed', here)
            if here:
                w.check('only points of the kind', may[j])
                i += 1
        w.check('nothing but points', i == len(rows))
        w.observe('rows', len(rows))
    return f


def h_path(n, step, limit, far=False):
    def f(w):
        depth = w.real('depth', 0, 700)
        TD = w.T.helper_classes.TimeDist

        def make(phase):
            a = arrival(w, phase, 0)
            w.assume(a.rayParam > 0.125)
            if far:
                # half a circle and more in steps too small to be divided
                x = w.real('half', 3.2, 6.1)
                a.path = [TD(1., 0., 0., depth), TD(
                    1., w.real('dt', .5, 500), x,
                    w.real('z', 0, 6000))]
            else:
                a.path = points(w, n, depth, step, .004 if limit else 0)
            a.dist = a.path[-1].distRadian
            return [a]
        with arrivals(w, make):
            q = w.T.TauP_Path.TauP_Path(c13.movable(w), ['P'], depth, 50.)
            inc = q.maxPathInc
            if far:
                q.maxPathInc = inc = 90.
            top = None
            if limit:
                q.maxPathTime = top = w.real('maximum time', 0.25, 1500)
            with w.capture() as out:
                q.run(True)
        a = q.arrivals[0]
        R = q.tMod.radiusOfEarth
        rows = listing(out)[1][0]
        sign = -1 if far else 1
        pts = [(p.time, p.distRadian * DEG, p.depth) for p in a.path]
        if limit:
            for t, d, z in pts:
                w.assume(w.any(t - top > 0.01, top - t > 0.01))
            cut = []
            for k, p in enumerate(pts):
                if bool(p[0] > top):
                    u = (top - pts[k - 1][0]) / (p[0] - pts[k - 1][0])
                    cut.append(tuple(x + u * (y - x) for x, y in
                                     zip(pts[k - 1], p)))
                    w.assume(cut[-1][1] - pts[k - 1][1] > .05)
                    break
                cut.append(p)
            pts = cut
        # every row lies on the curve, in order; every point is a row
        i = 0
        for k, (t, d, z) in enumerate(pts):
            if k:
                t0, d0, z0 = pts[k - 1]
                last = d0
                while i < len(rows) and not bool(w.all(
                        close(w, rows[i][0] * sign, d, 2),
                        close(w, rows[i][1], R - z, 1))):
                    x = rows[i][0] * sign
                    # rounding of the format
                    tol = 1e-5 if w.sym else 2e-5 + .12 * (
                        d - d0) + .012 * abs(z - z0)
                    w.check('points in between on the straight line', w.all(
                        x >= last - .02, x <= d + .02,
                        w.close((R - rows[i][1] - z0) * (d - d0),
                                (z - z0) * (x - d0), tol)))
                    w.check('steps', x - last <= inc + 0.02)
                    last = x
                    i += 1
                w.check('steps', d - last <= inc + 0.02)
            w.check('every point is printed', i < len(rows))
            w.check('point', w.all(close(w, rows[i][0] * sign, d, 2),
                                   close(w, rows[i][1], R - z, 1)))
            i += 1
            while limit and i < len(rows) and bool(w.all(
                    close(w, rows[i][0] * sign, d, 2),
                    close(w, rows[i][1], R - z, 1))):
                # a step that ends just at the point
                i += 1
        w.check('nothing beyond the end', i == len(rows))
        w.observe('rows', len(rows))
    return f


def cases(tier):
    q = tier == 'quick'
    out = [Case('table1', h_table(['P'], 'class'), bounds='1-2 arrivals'),
           Case('table2', h_table(['P', 'PcPPcP'], 'class'),
                bounds='2 phases'),
           Case('table-api', h_table(['S'], 'api'), bounds='1-2 arrivals')]
    out += [Case('header-' + k, h_header(k), bounds='2 arrivals')
            for k in ('TauP_Pierce', 'TauP_Path')]
    out += [Case('pierce%d-%s' % (n, s or 'all'), h_pierce(n, s),
                 bounds='%d points' % n)
            for n in ((3, 4) if q else (3, 4, 5))
            for s in (None, 'onlyTurnPoints', 'onlyRevPoints',
                      'onlyUnderPoints')]
    out += [Case('path%d' % n, h_path(n, 0.06, False), nl=True,
                 bounds='%d points, up to 3.4 degrees apart' % n)
            for n in ((2, 3) if q else (2, 3, 4))]
    out += [Case('path2-until', h_path(2, 0.06, True), nl=True,
                 bounds='2 points, any maximal time'),
            Case('path3-until', h_path(3, 0.035, True), nl=True,
                 bounds='3 points, any maximal time'),
            Case('path-long', h_path(2, 0, False, True), nl=True,
                 bounds='one segment of more than 180 degrees')]
    return out
