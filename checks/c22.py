"""C22 expansion of phase lists."""
from symx.runner import Case
from . import common

ASSUMPTIONS = ['the families are those of the TauP toolkit and the expansion '
               'of this release: ttp, ttp+, tts, tts+, ttbasic, ttall']

TTP = 'p P Pn Pdiff PKP PKiKP PKIKP'.split()
TTPP = TTP + ('PcP pP pPdiff pPKP pPKIKP pPKiKP sP sPdiff sPKP sPKIKP '
              'sPKiKP').split()
TTS = 's S Sn Sdiff SKS SKIKS'.split()
TTSP = TTS + 'sS sSdiff sSKS sSKIKS ScS pS pSdiff pSKS pSKIKS'.split()
BASIC = TTPP + TTSP + ('ScP SKP SKIKP PKKP PKIKKIKP SKKP SKIKKIKP PP PKPPKP '
                       'PKIKPPKIKP').split()
ALL = BASIC + ('SKiKP PP ScS PcS PKS PKIKS PKKS PKIKKIKS SKKS SKIKKIKS '
               'SKSSKS SKIKSSKIKS SS SP PS').split()
GROUPS = {'ttp': TTP, 'ttp+': TTPP, 'tts': TTS, 'tts+': TTSP,
          'ttbasic': BASIC, 'ttall': ALL}


def text(x):
    return x.concrete() if hasattr(x, 'concrete') else str(x)


def expand(names):
    """families as sets in order of the entries that bring them in"""
    out, seen = [], set()
    for n in names:
        new = set(GROUPS.get(n.lower(), [n])) - seen
        seen |= new
        if new:
            out.append(new)
    return out


def agree(w, got, names):
    got = [text(g) for g in got]
    want = expand(names)
    w.check('no duplicates', len(set(got)) == len(got))
    w.check('exactly the phases asked for',
            set(got) == set().union(*want) if want else not got)
    at, ok = 0, True
    for s in want:
        ok = ok and set(got[at:at + len(s)]) == s
        at += len(s)
    w.check('in the order of the list', ok)


def h_list(n, opts):
    def f(w):
        names = [w.choice('name%d' % i, opts) for i in range(n)]
        before = list(names)
        got = w.T.TauP_Time.parsePhaseList(names)
        agree(w, got, names)
        w.check('the list given is not changed', names == before)
        w.check('again the same', list(
            w.T.TauP_Time.parsePhaseList(names)) == list(got))
    return f


def h_string(n, alphabet, suffix=''):
    """any text: a group name in some case, or a plain name"""
    def f(w):
        s = w.string('name', n, alphabet) + suffix
        t = w.choice('other', ['P', 'ttp', 'SKiKP'])
        order = w.bool('first')
        names = [s, t] if order else [t, s]
        got = w.T.TauP_Time.parsePhaseList(names)
        agree(w, got, [text(x) for x in names])
    return f


def h_sub(w):
    """larger groups contain the smaller ones"""
    pairs = [('ttp', 'ttp+'), ('ttp+', 'ttbasic'), ('tts', 'tts+'),
             ('tts+', 'ttbasic'), ('ttbasic', 'ttall')]
    a, b = w.choice('pair', pairs)
    up = w.bool('upper')
    T = w.T.TauP_Time
    x, y = T.getPhaseNames(a.upper() if up else a), T.getPhaseNames(b)
    w.check('smaller group', set(x) == set(GROUPS[a]))
    w.check('contained', set(x) <= set(y))


def h_after(w):
    """lists returned before, changed by whoever got them"""
    T = w.T.TauP_Time
    names = [w.choice('name%d' % i, ['ttp', 'P', 'tts+', 'TTall'])
             for i in range(2)]
    for n in list(GROUPS) + ['P']:
        for _ in range(2):
            got = T.getPhaseNames(n)
            got.append('PKJKP')
            got = T.parsePhaseList([n])
            del got[:1]
            got.append('SKJKS')
    got = T.parsePhaseList(names)
    got.append('PP')
    del got[:2]
    agree(w, T.parsePhaseList(names), names)
    tm = common.taumodel(w)
    for k in range(2):
        tt = T.TauP_Time(tm, names, 0., 50.)
        tt.run()
        agree(w, tt.phaseNames, names)
        tt.phaseNames.append('SKJKS')
        del tt.phaseNames[:2]


def h_query(w):
    """the query objects calculate exactly the phases of the list"""
    tm = common.taumodel(w)
    cls = w.choice('kind', ['TauP_Time', 'TauP_Pierce', 'TauP_Path'])
    names = [w.choice('name%d' % i, ['P', 'ttp', 'S', 'TTP', 'PcP'])
             for i in range(2)]
    T = w.T
    tt = getattr(getattr(T, cls), cls)(tm, names, 0., 50.)
    tt.run()
    agree(w, tt.phaseNames, names)
    w.check('phases', [p.name for p in tt.phases] == list(tt.phaseNames))


def cases(tier):
    q = tier == 'quick'
    some = ['P', 'pP', 'ttp', 'ttp+', 'tts', 'TTs+', 'ttbasic', 'TTALL',
            'SKiKP', '410', 'Ttp']
    out = [Case('list0', h_list(0, some), bounds='no entries'),
           Case('list1', h_list(1, list(GROUPS) + ALL + some),
                bounds='one entry: any group or member'),
           Case('list2', h_list(2, list(GROUPS) + some + ALL[::3]),
                split=(1, 4), bounds='two entries'),
           Case('list3', h_list(3, some), split=(2, 6),
                bounds='three of %s' % some)]
    if not q:
        out.append(Case('list4', h_list(4, some), split=(2, 8), secs=600,
                        bounds='four of %s' % some))
    for n, al, suf in ((1, 'PpSsKtT+', ''), (3, 'tTpPsS', ''),
                       (4, 'tTpPsS+', ''), (3, 'tTaAlL', 'll'),
                       (3, 'tTbB', 'asic')):
        out.append(Case('text%d%s' % (n, suf), h_string(n, al, suf),
                        split=(6, 4), secs=60,
                        bounds='%d of %s, then %r' % (n, al, suf)))
    out.append(Case('families', h_sub, bounds='all pairs'))
    out.append(Case('after', h_after, bounds='two entries, lists returned '
                    'before are changed'))
    out.append(Case('query', h_query, split=(2, 4),
                    bounds='a small model, two entries'))
    return out
