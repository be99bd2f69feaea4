"""C01 reading a .tvel velocity file."""
from symx.runner import Case
from . import common

ASSUMPTIONS = [
    common.REAL,
    'the text of a number is a unique token that float() maps to a symbolic '
    'value; tokenising itself runs on the concrete text']
JUNK = ['', '   # note 7 8 9 1', ' # 1 2 3 4 ', '\t', '#', '\n\n # 1\n']
HEADERS = [('first header # line', 'second header'), ('', ''),
           ('0 5 3 2', '# 10 6 4 3')]
REMARKS = ['  # remark 1 2', '# 1 2 3 4', '#']


def h(n, kind):
    """n rows; consecutive depths may coincide (a discontinuity)."""
    def f(w):
        rows, d = [], None
        for i in range(n):
            d = 0.0 if i == 0 else d + w.real('h%d' % i, 0, 4000)
            p, s, r = (w.real('p%d' % i, 0.1, 20), w.real('s%d' % i, 0, 20),
                       w.real('r%d' % i, 0, 20))
            rows.append((d, p, s, r))
        bad = 0
        if kind == 'columns':
            bad = w.choice('badrow', list(range(n)))
            ncol = w.choice('ncol', [1, 3, 5, 8])
        lines = list(w.choice('header', HEADERS) if kind == 'junk'
                     else HEADERS[0])
        remark = w.choice('remark', REMARKS) if kind == 'junk' else ''
        where = w.choice('junk', list(range(n + 1))) if kind == 'junk' else -1
        for i, row in enumerate(rows):
            if where == i:
                lines.append(w.choice('j', JUNK))
            t = [w.token(x) for x in row]
            if kind == 'columns' and i == bad:
                t = (t + t)[:ncol]
            sep = [' ', '   ', '\t'][i % 3]
            lines.append(('  ' if i % 2 else '') + sep.join(t) +
                         (remark if where == i else ' ' if i % 2 else ''))
        if where == n:
            lines.append(w.choice('j', JUNK))
        text = '\n'.join(lines) + w.choice('eof', ['\n', ''])
        VM = w.T.VelocityModel.VelocityModel
        with common.TempFile('some.name.tvel', text) as path:
            ex, m = common.raises(VM.readTVelFile, path)
        slow = w.all(*[s <= p for _, p, s, _ in rows])
        if ex:
            if kind == 'columns':
                w.check('wrong number of columns rejected', True)
                return
            w.check('rejected only when S is faster than P', w.not_(slow))
            return
        w.check('number of columns', kind != 'columns')
        w.check('S faster than P rejected', slow)
        w.check('name', m.modelName == 'some.name')
        w.check('radius', w.all(w.close(m.radiusOfEarth, d, 1e-9),
                                w.close(m.maxRadius, d, 1e-9),
                                w.close(m.minRadius, 0, 1e-9)))
        k = 0
        for a, b in zip(rows, rows[1:]):
            if a[0] == b[0]:
                continue
            w.check('enough layers', k < len(m.layers))
            L = m.layers[k]
            got = (L.topDepth, L.botDepth, L.topPVelocity, L.botPVelocity,
                   L.topSVelocity, L.botSVelocity, L.topDensity,
                   L.botDensity)
            want = (a[0], b[0], a[1], b[1], a[2], b[2], a[3], b[3])
            for x, y in zip(got, want):
                w.check('layer value', w.close(x, y, 1e-9))
            w.check('layer number', L.layer_number == k)
            k += 1
        w.observe('layers', len(m.layers))
        w.check('no extra layers', k == len(m.layers) and
                m.getNumLayers() == k)
    return f


def h_name(w):
    VM = w.T.VelocityModel.VelocityModel
    text = 'a\nb\n0 5 3 2\n%s 6 3 2\n' % w.token(w.real('R', 1, 9000))
    name = w.choice('name', ['x.tvel', 'x.nd', 'x.txt', 'tvel', 'x.tvel.bak'])
    with common.TempFile(name, text) as path:
        ex, m = common.raises(VM.readVelocityFile, path)
    w.check('only .tvel files are read', ex == (name != 'x.tvel'))


def cases(tier):
    q = tier == 'quick'
    return [Case('rows%d' % n, h(n, 'plain'), bounds='%d rows' % n)
            for n in ((2, 3, 4) if q else (2, 3, 4, 5, 6, 7))] + \
        [Case('junk%d' % n, h(n, 'junk'),
              bounds='%d rows, blank or comment line anywhere' % n)
         for n in ((2, 3) if q else (2, 3, 4))] + \
        [Case('columns%d' % n, h(n, 'columns'), bounds='%d rows' % n)
         for n in (2, 3)] + [Case('names', h_name)]
