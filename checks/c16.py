"""C16 a phase exists for exactly the ray parameters its path allows."""
from symx.runner import Case
from . import common, paths, c15

ASSUMPTIONS = [
    common.REAL,
    'slowness is monotonic within a branch and arbitrary at its ends; the '
    'limits each branch records are the running minima of C11',
    'slowness is continuous at the source']


class Profile(object):
    """slowness at the top and bottom of every branch for P and S"""

    def __init__(self, w, n, cmb, iocb, mode, source=None):
        self.w = w
        self.top, self.bot = {}, {}
        for t in 'PS':
            for i in range(n):
                for d, k in ((self.top, 'top'), (self.bot, 'bot')):
                    if t == 'S' and cmb <= i < iocb:
                        d[t, i] = d['P', i]
                    elif k == 'bot' and i == n - 1:
                        d[t, i] = 0.0
                    else:
                        d[t, i] = w.real('%s%s%d' % (k, t, i), 1, 2000)
            for d in (self.top, self.bot):
                for i in range(n):
                    if t == 'S':
                        w.assume(d['S', i] >= d['P', i])
            if source:
                w.assume(self.bot[t, source - 1] == self.top[t, source])
            # the fluid core is not slower throughout than the mantle
            w.assume(self.bot['P', iocb - 1] <= self.bot[t, cmb - 1])
            if mode == 'smooth':
                # no high slowness zone down to the core and within it
                for i in range(n):
                    w.assume(self.bot[t, i] <= self.top[t, i] - .0625)
                    if i and i not in (cmb, iocb):
                        w.assume(self.top[t, i] <= self.bot[t, i - 1])

    def limit(self, kind, t, i):
        w = self.w
        xs = [self.top[t, 0]] * 2
        for j in range(i):
            xs += [self.bot[t, j], self.top[t, j + 1]]
        if kind == 'max':
            return w.min(*xs)
        xs.append(self.bot[t, i])
        if kind == 'min' and (t, i + 1) in self.top:
            xs.append(self.top[t, i + 1])
        return w.min(*xs)


def bounds(w, steps, pr, head, diff):
    """upper bounds, lower bounds and exact values of the ray parameter"""
    up, low, exact = [], [], []

    def ends(t, b):
        t = 'P' if t == 'K' else t
        return pr.top[t, b], pr.bot[t, b]
    prev = None
    for k, (bs, t, down, event, leg) in enumerate(steps):
        if down:
            # it gets into the first branch
            up.append(ends(t, bs[0])[0])
        else:
            up.append(ends(t, bs[-1])[0] if prev else ends(t, bs[0])[1])
        if event in ('turn', 'diff'):
            lo = w.min(*[x for b in bs for x in ends(t, b)])
            if event == 'turn':
                low.append(lo)
            else:
                # grazing the bottom
                for b in bs:
                    up += ends(t, b)
                exact.append(ends(t, bs[-1])[1])
        elif event == 'head':
            for b in bs[:-1]:
                up += ends(t, b)
            exact.append(ends(t, bs[-1])[0])
        elif prev in ('turn', 'diff', 'head'):
            # upwards from the turning point: through all branches above
            # the stretch gone down and down to its own end
            start = steps[k - 1][0][0]
            for b in bs:
                if b < start:
                    up += ends(t, b)
            for b in range(start, bs[-1]):
                up += ends(t, b)
            up.append(ends(t, bs[-1])[0])
        else:
            for b in bs:
                up += ends(t, b)
        prev = event if event in ('turn', 'diff', 'head') else None
    return up, low, exact


def zones(w, tm, z, pr, moho, cmb, wave):
    """high slowness zones below the Moho and at the bottom of the mantle,
    if slowness there is larger than anywhere above"""
    DR = w.T.helper_classes.DepthRange
    for t, zs in (('P', tm.sMod.highSlownessLayerDepthsP),
                  ('S', tm.sMod.highSlownessLayerDepthsS)):
        if t != wave:
            continue
        for name, b, at, slow in (
                ('crust', moho - 1, z[moho - 1], pr.bot[t, moho - 1]
                 if moho else 0),
                ('moho', moho, z[moho], pr.top[t, moho]),
                ('cmb', cmb - 1, z[cmb - 1], pr.bot[t, cmb - 1]),
                ('core', cmb, z[cmb], pr.top[t, cmb])):
            if moho == 0 and name in ('crust', 'moho'):
                continue
            low = pr.limit('turn', t, b - 1) if b else pr.top[t, 0]
            if name in ('crust', 'cmb'):
                low = w.min(low, pr.top[t, b])
            is_zone = w.choice('zone-%s-%s' % (name, t), [False, True])
            w.assume(slow > low if is_zone else slow <= low)
            if is_zone:
                zs.append(DR(topDepth=at, botDepth=z[b + 1], rayParam=low))


def run(w, key, tokens, mode):
    n, sb, moho, cmb, iocb, nodis = c15.LAYOUTS[key]
    pr = Profile(w, n, cmb, iocb, mode, sb)
    tm, z, ok, lay = c15.model(w, key, pr.limit)
    if mode == 'any' and any('diff' in x or x[1:] == 'n' for x in tokens):
        zones(w, tm, z, pr, moho, cmb, tokens[0][0].upper())
    name, legs, near = c15.name_of(w, tokens, z, ok)
    try:
        steps = paths.walk(legs, lay(lambda s: near[s]))
    except (paths.NoPath, paths.NoPhase):
        ex, ph = common.raises(w.T.SeismicPhase.SeismicPhase, name, tm)
        w.check('no rays without a path', ex or not c15.has_rays(ph))
        return
    up, low, exact = bounds(w, steps, pr, None, None)
    hi = w.min(*(up + exact + up[:1]))
    lo = w.max(0.0, *(low + exact)) if low + exact else 0.0
    # the phase in another model before
    if not near:
        common.raises(w.T.SeismicPhase.SeismicPhase, name,
                      common.built(w, 'upper'))
    ex, ph = common.raises(w.T.SeismicPhase.SeismicPhase, name, tm)
    w.check('no error', not ex)
    if ex:
        return
    if not c15.has_rays(ph):
        w.check('no rays only if the path allows none', hi < lo)
        w.check('no arrivals', ph.calcTime(30.) == [])
        return
    if mode == 'any':
        # a ray that would graze the bottom of a region that is slower
        # throughout than what is above is left as a single ray
        degenerate = w.all(ph.minRayParam == ph.maxRayParam, len(
            exact) == 0, lo > hi)
        w.check('rays only if the path allows some',
                w.any(lo <= hi, degenerate))
        w.check('largest ray parameter', w.any(
            degenerate, ph.maxRayParam == hi))
        w.check('smallest ray parameter', w.any(
            degenerate, ph.minRayParam == lo))
        return
    w.check('rays only if the path allows some', lo <= hi)
    w.check('largest ray parameter', ph.maxRayParam == hi)
    w.check('smallest ray parameter', ph.minRayParam == lo)


def h(key, names, mode):
    def f(w):
        run(w, key, w.choice("name", names), mode)
    return f


def possible(key, names):
    """those of the names that have a path in the layout"""
    n, sb, moho, cmb, iocb, nodis = c15.LAYOUTS[key]
    out = []
    for legs in names:
        for b in range(n):
            try:
                paths.walk(legs, paths.Layout(n, sb, moho, cmb, iocb,
                                              lambda s: b))
                out.append(legs)
                break
            except (paths.NoPath, paths.NoPhase):
                pass
    return out


NAMES = [l.split() for l in (
    'P', 'S', 'p', 's', 'P P', 'S S', 'P S', 'S P', 'p P', 's P', 'p S',
    's S', 'P c P', 'S c S', 'P c S', 'S c P', 'P K P', 'S K S', 'P K S',
    'S K P', 'Pdiff', 'Sdiff', 'Pn', 'Sn', 'Pg', 'Sg', 'P vm P', 'S vm P')]


PONLY = [l.split() for l in (
    'P', 'p', 'P P', 'p P', 'P c P', 'P K P', 'P K K P', 'P K I K P',
    'P K i K P', 'Pdiff', 'p Pdiff', 'Pn', 'Pn Pn', 'p Pn', 'Pg', 'P vm P',
    'P ^m P', 'P K P P K P', 'P P P')]
SONLY = [l.split() for l in (
    'S', 's', 'S S', 's S', 'S c S', 'Sdiff', 's Sdiff', 'Sn', 'Sn Sn',
    's Sn', 'Sg', 'S vm S', 'S ^m S', 'S c S S c S')]


def cases(tier):
    q = tier == 'quick'
    out = []
    for key in c15.LAYOUTS:
        names = possible(key, NAMES + c15.LONG)
        out.append(Case('smooth-%s' % key, h(key, names, 'smooth'),
                        split=(2, 4), secs=200))
        for k, names in (('P', PONLY), ('S', SONLY)):
            names = possible(key, names)
            if names:
                out.append(Case('any%s-%s' % (k, key), h(key, names, 'any'),
                                split=(2, 4), secs=200))
    return out
