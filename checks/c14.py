"""C14 phase names split into exactly their legs."""
import string

from symx.runner import Case
from . import common

ASSUMPTIONS = [
    'characters outside the alphabet of a case behave like the other '
    'characters there that belong to no leg',
    'numbers within names are decided per digit string (float() of a '
    'concrete text)']

LETTERS = 'PSKkIiJpsmcgbn^v'
ALL = string.ascii_letters + string.digits + '^._-+ #'
PLAIN = ('K k I i J p s m c P S Pg Pb Pn Sg Sb Sn Pdiff Sdiff').split()


def is_number(s):
    t = [c for c in s]
    if not t or any(c not in '0123456789.' for c in t):
        return False
    return t.count('.') <= 1 and len(t) > t.count('.')


def is_leg(s):
    if s in PLAIN:
        return True
    if s[:1] in ('^', 'v'):
        return s[1:] in ('m', 'c', 'i') or is_number(s[1:])
    return is_number(s)


def is_kmps(s):
    if not s.endswith('kmps'):
        return False
    try:
        v = float(s[:-4])
    except ValueError:
        return False
    return 0 < v < float('inf')


def text(x):
    return x.concrete() if hasattr(x, 'concrete') else str(x)


def split(w, name):
    """checks what legPuller makes of a name; its legs or None"""
    ex, legs = common.raises(w.T.SeismicPhase.legPuller, name)
    if ex:
        w.check('rejected with a model error', isinstance(
            legs, w.T.helper_classes.TauModelError))
        return None
    legs = [text(l) for l in legs]
    w.check('closed by END', len(legs) > 0 and legs[-1] == 'END')
    w.check('legs make up the name', ''.join(legs[:-1]) == text(name))
    if is_kmps(text(name)):
        w.check('one leg for a surface wave', len(legs) == 2)
    else:
        w.check('every leg in the vocabulary',
                all(is_leg(l) for l in legs[:-1]))
        w.check('adjoining digits are one number', not any(
            (l[-1] in '0123456789.' and k[0] in '0123456789.')
            for l, k in zip(legs, legs[1:-1])))
    return legs[:-1]


def h_any(n, alphabet, prefix='', suffix=''):
    def f(w):
        split(w, prefix + w.string('name', n, alphabet) + suffix)
    return f


# what may follow P or S
AFTER = ['P', 'S', 'K', 'm', 'c', '^m', 'vc', '^', 'v', '#', 'END', 'Pn',
         'Sdiff']


def h_legs(n):
    """names made of documented legs are split into these legs"""
    def f(w):
        legs = []
        prev = None
        for i in range(n):
            opts = PLAIN + ['^m', '^c', '^i', 'vm', 'vc', 'vi', '^', 'v',
                            '#']
            if prev in ('P', 'S'):
                opts = [o for o in opts if o in AFTER or o[0] in 'PS']
            if prev in ('^', 'v', '#'):
                opts = [o for o in opts if o != '#']
            kind = w.choice('leg%d' % i, opts)
            prev = kind
            if kind in ('^', 'v', '#'):
                num = w.string('depth%d' % i, w.choice('digits%d' % i,
                                                       [1, 2, 4]), '07')
                if w.choice('frac%d' % i, [False, True]):
                    num = num + '.5'
                kind = ('' if kind == '#' else kind) + num
            legs.append(kind)
        name = ''
        for l in legs:
            name = name + l
        # a list returned before, changed by whoever got it
        ex, early = common.raises(w.T.SeismicPhase.legPuller, name)
        if not ex:
            early[:1] = ['x']
            early.append('P')
        got = split(w, name)
        w.check('a documented name is accepted', got is not None)
        w.check('and split into the legs it is made of',
                got == [text(l) for l in legs])
    return f


def h_kmps(n):
    def f(w):
        s = w.string('number', n, '0123456789.-+eE in')
        name = s + 'kmps'
        ex, legs = common.raises(w.T.SeismicPhase.legPuller, name)
        ok = is_kmps(text(name))
        w.check('surface waves need a positive velocity', ex != ok)
        if ex:
            w.check('model error', isinstance(
                legs, w.T.helper_classes.TauModelError))
        else:
            w.check('one leg', [text(l) for l in legs] == [text(name),
                                                           'END'])
    return f


def h_build(n, alphabet):
    """whole phase objects: rejected with a model error or built"""
    def f(w):
        tm = common.taumodel(w)
        name = w.string('name', n, alphabet)
        ex, ph = common.raises(w.T.SeismicPhase.SeismicPhase, name, tm)
        if ex:
            w.check('rejected with a model error', isinstance(
                ph, w.T.helper_classes.TauModelError))
        else:
            w.check('named', text(ph.name) == text(name))
            w.check('legs', [text(l) for l in ph.legs[:-1]] == split(
                w, name))
    return f


def cases(tier):
    q = tier == 'quick'
    out = [Case('empty', h_any(0, ALL), bounds='the empty name',
                min_checks=1)]
    for n in (1, 2, 3):
        out.append(Case('any%d' % n, h_any(n, ALL), split=(6, 6) if n > 2
                        else None, bounds='all names of %d of %d characters'
                        % (n, len(ALL))))
    for n in (4,) if q else (4, 5):
        out.append(Case('letters%d' % n, h_any(n, 'PSKIJpscm^v1x'),
                        split=(10, 8), secs=60 if q else 800,
                        bounds='all names of %d of PSKIJpscm^v1x' % n))
    for pre, suf, al, n in (
            ('P', 'P', '^v0123456789.', 4), ('SP', '', 'difSfd', 4),
            ('pP', 'S', 'diPmf', 5), ('P^', 'P', '0149.mcx', 4),
            ('S', '0S', 'vi^6.', 3)):
        out.append(Case('in-%s-%s' % (pre, suf), h_any(n, al, pre, suf),
                        split=(8, 4),
                        bounds='%d of %s between %r and %r' % (
                            n, al, pre, suf)))
    out.append(Case('legs2', h_legs(2), split=(3, 6), bounds='2 legs'))
    out.append(Case('legs3', h_legs(3), split=(3, 8), secs=150,
                    bounds='3 legs') if not q else
               Case('legs1', h_legs(1), bounds='1 leg'))
    for n in (0, 1, 2, 3) if q else (0, 1, 2, 3, 4):
        out.append(Case('kmps%d' % n, h_kmps(n), split=(4, 4) if n > 2
                        else None, secs=120,
                        bounds='%d characters before kmps' % n))
    out.append(Case('phase3', h_build(3, 'PSKIJpcsm^v4i'), split=(6, 6),
                    secs=100, bounds='phases of 3 characters'))
    return out
