"""C20 pierce points trace an arrival from source to receiver."""
import copy
import math

from symx.runner import Case
from . import common

ASSUMPTIONS = [
    common.REAL,
    'layouts (branches, zones, source depths) are a fixed set of models made '
    'by the real constructors, with the ray parameters that delimit branches '
    'and one between each; these keep their order, the tabulated times and '
    'distances are arbitrary where the ray enters the branch and zero '
    'elsewhere',
    'the depth at which a slowness occurs is any depth of the branch (C05); '
    'the branches traversed and the curve are those of C15 and C17']
PI = math.pi


def key_rays(tm):
    """indices of rays that delimit branches or zones and one between each"""
    vals = set()
    for bs in tm.tauBranches:
        for b in bs:
            vals |= {b.minRayParam, b.maxRayParam, b.minTurnRayParam}
    for z in (tm.sMod.highSlownessLayerDepthsP +
              tm.sMod.highSlownessLayerDepthsS):
        vals.add(z.rayParam)
    n = len(tm.rayParams)
    key = [i for i, p in enumerate(tm.rayParams) if p in vals or
           i in (0, n - 1)]
    out = set(key)
    for a, b in zip(key, key[1:]):
        if b - a > 1:
            out.add((a + b) // 2)
    return sorted(out)


def tables(w, key, depth):
    tm = common.built(w, key)
    if depth:
        tm = tm.depthCorrect(depth)
    tm = copy.deepcopy(tm)
    keep = key_rays(tm)
    rp = [tm.rayParams[i] for i in keep]
    sym = {}
    prev = None
    for i, p in enumerate(reversed(rp)):
        if p == 0:
            s = 0.0
        else:
            s = w.real('rp%d' % (len(rp) - 1 - i), 1, 9000)
            w.assume(s >= prev + .125 if prev is not None else s >= .125)
        sym[p] = prev = s
    tm.rayParams = [sym[p] for p in rp]
    old = sorted(sym, reverse=True)

    def limit(x):
        # limits beyond rounding are samples
        return sym[min(old, key=lambda p: abs(p - x))]
    for k, bs in enumerate(tm.tauBranches):
        for j, b in enumerate(bs):
            t = []
            for a in ('time', 'dist'):
                row = []
                for i in keep:
                    x = getattr(b, a)[i]
                    if x == 0:
                        row.append(0.0)
                    else:
                        row.append(w.real('%s%d_%d_%d' % (a[0], k, j, i),
                                          .0009765625, 4 if a == 'dist'
                                          else 4000))
                t.append(row)
            b.time, b.dist = t
            b.tau = None
            for a in ('minRayParam', 'maxRayParam', 'minTurnRayParam'):
                setattr(b, a, limit(getattr(b, a)))
    for z in (tm.sMod.highSlownessLayerDepthsP +
              tm.sMod.highSlownessLayerDepthsS):
        z.rayParam = limit(z.rayParam)
    return tm


def depths(w, sm):
    """stands for SlownessModel.findDepth: some depth of the range"""
    known = {}

    def find(p, topCriticalLayer, botCriticalLayer, isPWave):
        k = (float(topCriticalLayer), float(botCriticalLayer),
             bool(isPWave))
        if k not in known:
            known[k] = w.real('turn%s-%s-%s' % k, k[0], k[1])
        return known[k]
    sm.findDepth = find
    return find


def arrival(w, ph, k, r):
    A = w.T.Arrival.Arrival

    def at(x):
        return x[k] + r * (x[k + 1] - x[k])
    return A(ph, at(ph.time), at(ph.dist), at(ph.rayParams), k, ph.name,
             ph.puristName, ph.sourceDepth, 0.0, 0.0)


def sample_of(w, tm, ph, k):
    """index of sample k of the curve in the model, and whether the other
    end of the segment is the ray turning above a zone"""
    for i, p in enumerate(tm.rayParams):
        if p == ph.rayParams[k]:
            break
    n = len(ph.rayParams)
    above = k + 2 < n and ph.rayParams[k + 1] is ph.rayParams[k + 2]
    return i, above


def is_(x, y):
    return type(x) is float and x == y


def some(x):
    return not is_(x, 0)


def expected(w, tm, ph, arr, k, r, find):
    """list of (time, dist, depth) in order"""
    i, above = sample_of(w, tm, ph, k)
    T = X = 0.0
    out = [(T, X, tm.sourceDepth)]
    head = len(ph.headOrDiffractSeq)
    extra = (arr.dist - ph.dist[0]) / head if head else 0
    for j, (b, isP, down) in enumerate(zip(ph.branchSeq, ph.waveType,
                                           ph.downGoing)):
        br = tm.tauBranches[0 if isP else 1][b]
        ta, xa = br.time[i], br.dist[i]
        if head or k == len(ph.rayParams) - 1 or \
                ph.rayParams[k] is ph.rayParams[k + 1]:
            tb, xb = ta, xa
        elif above and br.maxRayParam <= ph.rayParams[k + 1]:
            tb = xb = 0.0
        else:
            tb, xb = br.time[i + 1], br.dist[i + 1]
        dt, dx = ta + r * (tb - ta), xa + r * (xb - xa)
        T, X = T + dt, X + dx
        if some(ta) and not is_(r, 1) or some(tb) and not is_(r, 0):
            p = arr.rayParam
            if not down:
                y = br.topDepth
            elif p <= br.minRayParam:
                y = br.botDepth
            else:
                fluid = tm.sMod.depthInFluid((br.topDepth + br.botDepth) / 2)
                y = find(p, br.topDepth, br.botDepth, isP or fluid)
            out.append((T, X, y))
        if j in ph.headOrDiffractSeq:
            T, X = T + extra * arr.rayParam, X + extra
            out.append((T, X, tm.cmbDepth if 'diff' in ph.name
                        else tm.mohoDepth))
    return out


def h(key, depth, name):
    def f(w):
        tm = tables(w, key, depth)
        ex, ph = common.raises(w.T.SeismicPhase.SeismicPhase, name, tm)
        if ex:
            w.check('model error', isinstance(
                ph, w.T.helper_classes.TauModelError))
            return
        n = len(ph.rayParams)
        if not n:
            w.check('no rays', ph.maxRayParam < 0)
            return
        k = w.choice('segment', list(range(n - 1)))
        if n > 2 and ph.rayParams[k] is ph.rayParams[k + 1]:
            return      # a shadow zone
        rp = ph.rayParams
        near = k in (0, n - 2) or rp[k + 1] is rp[k + 2] or \
            rp[k] is rp[k - 1]
        r = w.choice('end', [0.0, None, 1.0] if near else [None])
        if r is None:
            r = w.real('r', .0009765625, .9990234375)
        gap = ph.dist[k + 1] - ph.dist[k]
        if not (type(r) is float and r == 0):
            w.assume(w.any(gap > .0009765625, gap < -.0009765625))
        find = depths(w, tm.sMod)
        arr = arrival(w, ph, k, r)
        got = ph.calcPierceFromArrival(arr)
        w.check('same arrival', got is arr)
        pts = arr.pierce
        want = expected(w, tm, ph, arr, k, r, find)
        if len(want) == 1:
            # first sample of a source between samples (C17): no ray
            w.check('no points', len(pts) == 1)
            return
        w.check('number of points', len(pts) == len(want))
        w.check('first point at the source', w.all(
            pts[0].time == 0, pts[0].distRadian == 0,
            pts[0].depth == tm.sourceDepth))
        w.check('depths in order', w.all(*[
            w.close(x.depth, y[2], 1e-9) for x, y in zip(pts, want)]))
        w.check('times', w.all(*[w.close(x.time, y[0], 1e-6)
                                 for x, y in zip(pts, want)]))
        w.check('distances', w.all(*[w.close(x.distRadian, y[1], 1e-9)
                                     for x, y in zip(pts, want)]))
        w.check('ray parameter', w.all(*[w.close(x.p, arr.rayParam, 1e-6)
                                         for x in pts]))
        w.check('ends at the surface with the arrival', w.all(
            pts[-1].depth == 0, w.close(pts[-1].time, arr.time, 1e-5),
            w.close(pts[-1].distRadian, arr.dist, 1e-8)))
        w.check('onwards', w.all(*[w.all(a.time <= b.time,
                                         a.distRadian <= b.distRadian)
                                   for a, b in zip(pts, pts[1:])]))
    return f


NAMES = ('P S p s pP sS PP SS SP PcP ScS ScP PKP SKS PKIKP PKJKP SKIKS PKiKP '
         'Pdiff Sdiff SdiffP pPdiff Pn Sn PnPn Pg Pvmp Pv40P P^40P S^660S '
         'P40s PmSP PKPPKP SKKS').split()
FEW = 'P S pP SP PcP PKP SKS Pn'.split()
LAYOUTS = {('plain', 0): NAMES, ('plain', 20.): NAMES, ('lvz-p', 0): FEW,
           ('upper', 500.): ['p', 'sP', 'PP', 'PKIKP'],
           ('lvz-p', 200.): ['P', 'p', 'PP'],
           ('lvz-p', 250.): ['P', 'pP', 'ScP'], ('lvz-both', 0): FEW,
           ('lvz-s', 0): ['P', 'S', 'SP', 'SS', 'SKS']}


def cases(tier):
    q = tier == 'quick'
    out = []
    for key, depth in sorted(LAYOUTS):
        for n in LAYOUTS[key, depth] if q else NAMES:
            out.append(Case('pierce-%s-%d-%s' % (key, depth, n),
                            h(key, depth, n), min_paths=1, nl=True,
                            bounds='layout %s, source at %s km' % (
                                key, depth)))
    from . import c13
    for key, depth, name, lo, hi in (
            ('plain', 0, '3kmps', 10, 170), ('plain', 20., 'P', 30, 36),
            ('lvz-both', 0, 'P', 10, 14), ('upper', 0, 'Pdiff', 120, 130)):
        out.append(Case('arrivals-%s-%s' % (key, name), c13.h_arrivals(
            key, depth, name, 'Pierce', lo, hi),
            bounds='two distances of %s to %s degrees' % (lo, hi)))
    return out
