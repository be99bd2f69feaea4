"""C17 phase curves sum the branches traversed."""
import copy
import math

from symx.runner import Case
from . import common

ASSUMPTIONS = [
    common.REAL,
    'layouts (branches, zones, source depths) are a fixed set of models made '
    'by the real constructors; the ray parameters keep their order and every '
    'tabulated time and distance is arbitrary',
    'the branches a phase traverses and its range of ray parameters are '
    'those of C15 and C16']
PI = math.pi


def tables(w, key, depth):
    """a layout with symbolic ray parameters, times and distances"""
    tm = common.built(w, key)
    if depth:
        tm = tm.depthCorrect(depth)
    tm = copy.deepcopy(tm)
    vals = set(tm.rayParams)
    zones = tm.sMod.highSlownessLayerDepthsP + \
        tm.sMod.highSlownessLayerDepthsS
    for bs in tm.tauBranches:
        for b in bs:
            vals |= {b.minRayParam, b.maxRayParam, b.minTurnRayParam}
    vals |= {z.rayParam for z in zones}
    vals = sorted(vals)
    # samples closer than rounding are one
    groups = []
    for v in vals:
        if groups and v - groups[-1][-1] < 1e-9 * max(1, v):
            groups[-1].append(v)
        else:
            groups.append([v])
    sym, prev = {}, None
    for i, g in enumerate(groups):
        s = 0.0 if g[0] == 0 else w.real('rp%d' % i, 0.5, 9000)
        if prev is not None:
            w.assume(s >= prev + 0.125)
        prev = s
        for v in g:
            sym[v] = s
    tm.rayParams = [sym[p] for p in tm.rayParams]
    for k, bs in enumerate(tm.tauBranches):
        for j, b in enumerate(bs):
            for a in ('minRayParam', 'maxRayParam', 'minTurnRayParam'):
                setattr(b, a, sym[getattr(b, a)])
            n = len(b.time)
            b.time = [w.real('t%d_%d_%d' % (k, j, i), 0, 5000)
                      for i in range(n)]
            b.dist = [w.real('d%d_%d_%d' % (k, j, i), 0, 4)
                      for i in range(n)]
    for z in zones:
        z.rayParam = sym[z.rayParam]
    return tm


def where(w, seq, x):
    """index of the last element of a decreasing list that is >= x"""
    k = -1
    for i, y in enumerate(seq):
        if y >= x:
            k = i
    return k


def traversed(w, tm, ph, i, skip=None):
    """sums at sample i over the branches of ph not skipped"""
    T = X = 0
    for isP, b in zip(ph.waveType, ph.branchSeq):
        br = tm.tauBranches[0 if isP else 1][b]
        if skip is None or not skip(isP, br):
            T, X = T + br.time[i], X + br.dist[i]
    return T, X


def crosses(tm, ph, z, isP):
    """the phase goes down through the top of zone z as this wave type"""
    legs = list(zip(ph.branchSeq, ph.waveType, ph.downGoing))
    for i, (b, t, down) in enumerate(legs):
        br = tm.tauBranches[0][b]
        if br.topDepth == z.topDepth and t == isP and down and (
                i == 0 or legs[i - 1] == (b - 1, isP, True)):
            return True
    return False


def h(key, depth, name, before=()):
    def f(w):
        # the phase in another model, and others in this one
        common.raises(w.T.SeismicPhase.SeismicPhase, name,
                      common.built(w, 'upper'))
        tm = tables(w, key, depth)
        for n in before:
            common.raises(w.T.SeismicPhase.SeismicPhase, n, tm)
        ex, ph = common.raises(w.T.SeismicPhase.SeismicPhase, name, tm)
        if ex:
            w.check('model error', isinstance(
                ph, w.T.helper_classes.TauModelError))
            return
        lo, hi = ph.minRayParam, ph.maxRayParam
        diff = 'diff' in name
        head = diff or any(x in ('Pn', 'Sn') for x in ph.legs)
        if hi < 0 or lo > hi:
            w.check('nothing outside the range', w.all(
                len(ph.rayParams) == 0, len(ph.dist) == 0,
                len(ph.time) == 0, ph.maxDistance < 0))
            w.check('no arrivals', ph.calcTime(w.choice(
                'degrees', [0., 30., 180.])) == [])
            return
        a, b = where(w, tm.rayParams, hi), where(w, tm.rayParams, lo)
        want = []
        for i in range(a, b + 1):
            T, X = traversed(w, tm, ph, i)
            want.append((tm.rayParams[i], T, X))
        if head:
            w.check('grazing ray only', a == b)
            seg = (60 if diff else 20) * PI / 180
            p, T, X = want[0]
            want = [(p, T, X), (p, T + p * seg, X + seg)]
        elif a == b:
            want = want * 2
        # a break where a zone is crossed
        for isP, zs in ((True, tm.sMod.highSlownessLayerDepthsP),
                        (False, tm.sMod.highSlownessLayerDepthsS)):
            for z in zs:
                if hi > z.rayParam and z.rayParam > lo and \
                        crosses(tm, ph, z, isP):
                    m = where(w, tm.rayParams, z.rayParam)
                    T, X = traversed(
                        w, tm, ph, m, lambda t, br: t == isP and
                        br.topDepth >= z.topDepth)
                    k = [i for i, e in enumerate(want)
                         if e[0] == z.rayParam][0]
                    want.insert(k, (z.rayParam, T, X))
        n = len(want)
        w.check('samples', w.all(len(ph.rayParams) == n, len(ph.dist) == n,
                                 len(ph.time) == n))
        w.check('ray parameters', w.all(*[w.close(x, e[0], 1e-9) for x, e
                                          in zip(ph.rayParams, want)]))
        w.check('times', w.all(*[w.close(x, e[1], 1e-6) for x, e
                                 in zip(ph.time, want)]))
        w.check('distances', w.all(*[w.close(x, e[2], 1e-6) for x, e
                                     in zip(ph.dist, want)]))
        w.check('smallest distance', w.all(
            w.any(*[ph.minDistance == x for x in ph.dist]),
            *[ph.minDistance <= x for x in ph.dist]))
        w.check('largest distance', w.all(
            w.any(*[ph.maxDistance == x for x in ph.dist]),
            *[ph.maxDistance >= x for x in ph.dist]))
    return f


def h_range(key, depth, name):
    """no sample outside the phase's own range"""
    def f(w):
        tm = tables(w, key, depth)
        ex, ph = common.raises(w.T.SeismicPhase.SeismicPhase, name, tm)
        if ex:
            return
        w.check('samples within the range', w.all(*[
            w.all(p <= ph.maxRayParam, p >= ph.minRayParam)
            for p in ph.rayParams]))
    return f


NAMES = ('P S p s pP sP pS sS PP SS PS SP PPP PcP ScS ScP PcS PKP PKS SKS '
         'SKP PKKP SKKS PKIKP SKIKS PKJKP PKiKP SKiKP PKIIKP Pdiff Sdiff '
         'PdiffS pPdiff sSdiff Pn Sn PnPn PnS pPn Pg Sg Pvmp Svms Pv40p '
         'P^40P S^660S PvmP P40s p40P SKSSKS PKPPKP ScSScS').split()


QUICK = {
    'plain': [0, 20.], 'upper': [500.], 'lvz-p': [0, 200., 250.],
    'lvz-both': [0, 20., 200.], 'lvz-s': [0], 'lvz-cmb': [0], 'noJ': [0],
    'nomoho': [0]}
FULL = {k: [0, 20., 40., 200., 250., 1000., 2800.] for k in common.MODELS}
RARE = ('PPP PKKP SKKS PKIIKP SKIKS SKiKP sS sSdiff pPn PKPPKP ScSScS PvmP '
        'P40s p40P PdiffS').split()


def cases(tier):
    q = tier == 'quick'
    out = []
    layouts = QUICK if q else FULL
    for key in sorted(layouts):
        for depth in layouts[key]:
            for n in NAMES:
                if q and n in RARE and key != 'plain':
                    continue
                out.append(Case(
                    'sum-%s-%d-%s' % (key, depth, n), h(key, depth, n),
                    min_paths=1, bounds='layout %s, source at %s km' % (
                        key, depth)))
    for n in ('P', 'PKP', 'ScS', 'Pdiff', 'SKS', 'sP', 'PP'):
        for key, depth in (('plain', 0), ('lvz-both', 200.)):
            out.append(Case('range-%s-%d-%s' % (key, depth, n),
                            h_range(key, depth, n), min_checks=0))
    for key, depth, names in (
            ('plain', 0, 'S P PP'), ('plain', 20., 'P pP sP'),
            ('plain', 20., 'sS S SS'), ('plain', 0, 'Sn Pdiff Pn'),
            ('lvz-both', 0, 'P S P'), ('lvz-both', 200., 'PcP P S'),
            ('plain', 0, 'PKP PKIKP SKS'), ('plain', 20., 'Pdiff P PcP')):
        names = names.split()
        out.append(Case(
            'after-%s-%d-%s' % (key, depth, '-'.join(names)),
            h(key, depth, names[-1], names[:-1]), min_paths=1,
            bounds='layout %s, source at %s km' % (key, depth)))
    out.append(Case('range-inside', h_range('plain', 20., 'P'),
                    known='source-slowness',
                    bounds='source inside a layer'))
    return out
