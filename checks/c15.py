"""C15 branch sequences are connected physical paths."""
import copy

from symx.runner import Case
from . import common, paths

ASSUMPTIONS = [
    common.REAL,
    'the depths of the boundaries and the depths in the names are arbitrary; '
    'the numbers of branches above and below the Moho, the core and the '
    'source are those of the layouts listed',
    'in the fluid core either wave type stands for the P wave',
    'the ray parameter limits of all branches are one arbitrary number in '
    'the "walk" cases, so that every phase with a path has a ray; they are '
    'arbitrary in the "limits" cases']

# layout: branches, branch of the source, Moho, core and inner core, first
# branch whose top is no discontinuity
LAYOUTS = {
    'surface': (5, 0, 1, 3, 4, None),
    'crust': (6, 1, 2, 4, 5, 1),
    'mantle': (6, 2, 1, 4, 5, 2),
    'at410': (5, 2, 1, 3, 4, None),
    'atmoho': (5, 1, 1, 3, 4, None),
    'lower': (6, 3, 1, 4, 5, 3),
    'atcmb': (5, 3, 1, 3, 4, None),
    'core': (6, 4, 1, 3, 5, 4),
    'inner': (6, 5, 1, 3, 4, 5),
    'layered': (9, 2, 1, 4, 7, 2),
    'nomoho': (4, 0, 0, 2, 3, None),
    'nomoho-deep': (5, 1, 0, 3, 4, 1),
}


def model(w, key, limit):
    """(tau model with these branches, Layout)"""
    n, sb, moho, cmb, iocb, nodis = LAYOUTS[key]
    tm = copy.deepcopy(common.taumodel(w))
    z = [0.0]
    for i in range(1, n):
        z.append(w.real('z%d' % i, 1, 5900))
        w.assume(z[i] >= z[i - 1] + 1)
    z.append(6000.0)
    TB = w.T.TauBranch.TauBranch
    tm.tauBranches = []
    for t in 'PS':
        bs = []
        for i in range(n):
            b = TB(z[i], z[i + 1], t == 'P')
            b.maxRayParam = limit('max', t, i)
            b.minTurnRayParam = limit('turn', t, i)
            b.minRayParam = limit('min', t, i)
            b.time, b.dist, b.tau = [0.0, 0.0], [0.0, 0.0], [0.0, 0.0]
            bs.append(b)
        tm.tauBranches.append(bs)
    tm.rayParams = [10000.0, 9999.0]
    tm.sMod.highSlownessLayerDepthsP = []
    tm.sMod.highSlownessLayerDepthsS = []
    tm.mohoDepth, tm.cmbDepth, tm.iocbDepth = z[moho], z[cmb], z[iocb]
    tm.mohoBranch, tm.cmbBranch, tm.iocbBranch = moho, cmb, iocb
    tm.sourceDepth, tm.sourceBranch = z[sb], sb
    tm.noDisconDepths = [z[nodis]] if nodis is not None else []
    ok = [i for i in range(n) if i != nodis]

    def closest(x):
        for i in ok:
            if all(abs(z[i] - x) <= abs(z[j] - x) for j in ok):
                return i
    return tm, z, ok, lambda f: paths.Layout(n, sb, moho, cmb, iocb, f)


def name_of(w, tokens, z, ok):
    """name made of tokens, # standing for any depth; its legs and the
    boundary nearest to each depth"""
    name, legs, near = '', [], {}
    for i, t in enumerate(tokens):
        if '#' in t:
            x = w.real('x%d' % i, 0, 5999)
            s = w.token(x)
            k = w.choice('near%d' % i, ok)
            w.assume(w.all(*[abs(z[k] - x) < abs(z[j] - x) for j in ok
                             if j != k]))
            near[s] = k
            t = t.replace('#', s)
        legs.append(t)
        name = name + t
    return name, legs, near


def expected(legs, lay):
    try:
        return paths.walk(legs, lay)
    except (paths.NoPath, paths.NoPhase):
        return None


def compare(w, tm, ph, steps):
    """the sequence recorded is that of the walk"""
    seq, down, wave, core = [], [], [], []
    for bs, t, d, event, leg in steps:
        for b in bs:
            seq.append(b)
            down.append(d)
            wave.append(t)
    w.check('branches in order', [int(b) for b in ph.branchSeq] == seq)
    w.check('up and down', [bool(d) for d in ph.downGoing] == down)
    w.check('wave types', len(ph.waveType) == len(wave) and all(
        t == 'K' or bool(x) == (t == 'P')
        for x, t in zip(ph.waveType, wave)))
    w.check('from the source to the surface',
            (seq[0] if down[0] else seq[0] + 1) == tm.sourceBranch and
            seq[-1] == 0 and not down[-1])
    w.check('connected', all(
        b == a + 1 if d and e else b == a - 1 if not d and not e else a == b
        for a, b, d, e in zip(seq, seq[1:], down, down[1:])))
    w.check('no S in fluid', all(
        t != 'S' or not tm.cmbBranch <= b < tm.iocbBranch
        for b, t in zip(seq, wave)))


def has_rays(ph):
    return len(ph.rayParams) > 0


def valid(tokens):
    """adjoining tokens stay separate legs and are worth building"""
    for a, b in zip(tokens, tokens[1:]):
        if a[-1] == '#' and b[0] == '#':
            return False
        if a in ('P', 'S') and b in ('p', 's', 'I', 'J', 'i'):
            return False
    return True


def run(w, key, tokens, arbitrary, before=None):
    if arbitrary:
        def limit(kind, t, i):
            return w.real('%s%s%d' % (kind, t, i), 1, 2000)
    else:
        q = w.real('q', 1, 2000)

        def limit(kind, t, i):
            return q
    tm, z, ok, lay = model(w, key, limit)
    name, legs, near = name_of(w, tokens, z, ok)
    if before:
        before(name, tm)
    ex, ph = common.raises(w.T.SeismicPhase.SeismicPhase, name, tm)
    if ex:
        w.check('rejected with a model error', isinstance(
            ph, w.T.helper_classes.TauModelError))
    want = expected(legs, lay(lambda s: near[s]))
    if want is None:
        w.check('no rays without a path', ex or not has_rays(ph))
    elif not arbitrary:
        w.check('a path has rays', not ex and has_rays(ph))
    if want is not None and not ex and has_rays(ph):
        compare(w, tm, ph, want)


def h(key, vocab, n, arbitrary=False, first=None):
    def f(w):
        tokens = []
        for i in range(n):
            opts = [t for t in (first if first and i == 0 else vocab)
                    if valid(tokens + [t])]
            tokens.append(w.choice('leg%d' % i, opts))
        run(w, key, tokens, arbitrary)
    return f


RAYS = ['P', 'S', 'p', 's', 'K', 'I', 'J', 'Pn', 'Sn', 'Pg', 'Sg', 'Pdiff',
        'Sdiff']
VOCAB = RAYS + ['c', 'i', 'm', '^m', 'vm', 'vc', '^c', 'vi', '^#', 'v#',
                '#']
START = ['P', 'S', 'p', 's', 'Pn', 'Sg', 'Sdiff']


SHORT = ['P', 'S', 'p', 's', 'K', 'I', 'J', 'Pn', 'Sg', 'Pdiff', 'c', 'i',
         'm', '^m', 'vm', 'vi', '^#', 'v#', '#']
FEW = ['P', 'S', 'p', 'K', 'I', 'J', 'c', 'i', '^#', 'v#', '#']
LONG = [l.split() for l in (
    'P K I K P', 'S K J K S', 'P K i K S', 'S K K S', 'P K K K P',
    'P c P P c P', 'S c S S c S S', 'p ^# P', 's ^# S P', 'P v# p P',
    'P v# P', 'S v# s S', 'P # s P', 'P # S P', 'p # s P', 'P m S P',
    'P m s P', 'P K P P K P', 'P K I I K P', 'S K I K P', 'P K P # s',
    'P ^# S ^m S', 'S c P ^# P', 'P K P ^# P K P', 'p P K i K P', 'p S K S',
    'Pdiff P', 'Sdiff S c S', 'P Pn', 'Pn Pn Pn', 'Pn S c S', 'p Pdiff P',
    's Sn S', 'Pg Pg', 'Pn p', 'Pdiff p P', 'P v# P v# P', 'S vm S vm S',
    'P c S # p', 'P K J I K S', 'p ^m P c S', 'Pg S', 'P P S S P')]


def h_named(key):
    """longer names"""
    def f(w):
        run(w, key, w.choice('name', LONG), w.choice('limits',
                                                     [False, True]))
    return f


AFTER = [l.split() for l in (
    'P', 'P K I K P', 'S ^# P', 'P v# p P', 'P c S', 'Pdiff', 'Pn', 'p # s P',
    'P m S')]


def h_after(key):
    """after phases of another model and other phases of this one"""
    def f(w):
        other = common.built(w, 'upper').depthCorrect(400.)
        Phase = w.T.SeismicPhase.SeismicPhase

        def before(name, tm):
            common.raises(Phase, name, other)
            for n in ('P', 'SKS', 'PcS', 'pP', 'S', 'P^mS'):
                common.raises(Phase, n, tm)
                common.raises(Phase, n, other)
        run(w, key, w.choice('name', AFTER), False, before)
    return f


def cases(tier):
    q = tier == 'quick'
    out = []
    for key in LAYOUTS:
        for n in (1, 2):
            out.append(Case('walk%d-%s' % (n, key), h(
                key, VOCAB, n, first=START), secs=200,
                bounds='%d tokens of %s' % (n, ' '.join(VOCAB))))
        out.append(Case('named-%s' % key, h_named(key), split=(2, 2),
                        secs=200, bounds=', '.join(map(''.join, LONG))))
        if not q or key in ('surface', 'mantle', 'atmoho'):
            out.append(Case('after-%s' % key, h_after(key), split=(2, 2),
                            secs=200, bounds=', '.join(map(''.join, AFTER)) +
                            ', after phases of another model'))
        if not q or key in ('surface', 'mantle'):
            v = SHORT if q else VOCAB
            out.append(Case('walk3-%s' % key, h(key, v, 3, first=START),
                            split=(4, 8), secs=200 if q else 800,
                            bounds='3 tokens of %s' % ' '.join(v)))
        if not q:
            out.append(Case('walk4-%s' % key, h(key, FEW, 4,
                                                first=['P', 'S', 'p']),
                            split=(5, 8), secs=800,
                            bounds='4 tokens of %s' % ' '.join(FEW)))
            out.append(Case('limits2-%s' % key, h(
                key, VOCAB, 2, arbitrary=True, first=START), split=(4, 8),
                secs=800, bounds='2 tokens, arbitrary limits'))
    return out
