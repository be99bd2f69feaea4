"""C26 a saved model loads back unchanged."""
import copy
import os
import shutil
import sys
import tempfile

from symx.runner import Case
from symx import loader as _loader
from . import common

ASSUMPTIONS = [
    common.REAL,
    'pickle stores and restores every number exactly; which objects and '
    'fields are handed to it and taken from it is executed',
    'file system calls run on scratch files']
PLAIN = (bool, str, bytes, type(None))


class At(object):
    def __init__(self, T):
        self.T = T


class Modules(object):
    """pickle finds classes by module name: makes the modules under check
    visible under theirs"""

    def __init__(self, T):
        self.T = T

    def __enter__(self):
        self.old = {k: v for k, v in sys.modules.items()
                    if k.split('.')[0] == 'taupy'}
        for k in self.old:
            del sys.modules[k]
        for n in sorted(os.listdir(self.T.root)):
            if n.endswith('.py') and n != '__init__.py':
                self.T.load('taupy.' + n[:-3])
        sys.modules.update(self.T.mods)
        return self

    def __exit__(self, *a):
        for k in [k for k in sys.modules if k.split('.')[0] == 'taupy']:
            del sys.modules[k]
        sys.modules.update(self.old)
        return False


class Scratch(object):
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='symx')
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir)
        return False


def fields(x):
    """the public fields of an object, wherever they are kept"""
    out = dict(getattr(x, '__dict__', {}))
    for c in type(x).__mro__:
        s = c.__dict__.get('__slots__', ())
        for a in ([s] if isinstance(s, str) else s):
            if hasattr(x, a):
                out[a] = getattr(x, a)
    return {a: v for a, v in out.items() if not a.startswith('_')}


def number(x):
    return type(x).__name__ in ('SymReal', 'float', 'int', 'float64') \
        and not isinstance(x, bool)


def fill(w, x, n, seen):
    """replaces every floating point number in the graph by a symbolic one"""
    def new(v):
        if isinstance(v, float):
            n[0] += 1
            return w.real('v%d' % n[0], -1000, 9000)
        fill(w, v, n, seen)
        return v
    if number(x) or isinstance(x, PLAIN) or id(x) in seen:
        return
    seen[id(x)] = x
    if isinstance(x, list):
        x[:] = [new(v) for v in x]
    elif isinstance(x, dict):
        for k in list(x):
            x[k] = new(x[k])
    elif isinstance(x, (tuple, set)):
        for v in x:
            fill(w, v, n, seen)
    else:
        for a, v in sorted(fields(x).items()):
            if isinstance(v, float) and isinstance(
                    getattr(type(x), a, None), property):
                continue
            v2 = new(v)
            if v2 is not v:
                setattr(x, a, v2)


def same(w, a, b, where, seen):
    if number(a):
        w.check('number ' + where, number(b) and w.close(a, b, 1e-9))
        return
    if isinstance(a, PLAIN):
        w.check('value ' + where, type(a) is type(b) and a == b)
        return
    if id(a) in seen:
        return
    seen[id(a)] = a
    w.check('type ' + where, type(a).__name__ == type(b).__name__)
    if isinstance(a, (list, tuple)):
        w.check('length ' + where, len(a) == len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            same(w, x, y, '%s[]' % where, seen)
    elif isinstance(a, dict):
        w.check('keys ' + where, set(a) == set(b))
        for k in a:
            same(w, a[k], b[k], '%s[]' % where, seen)
    elif hasattr(a, '__dict__') or hasattr(type(a), '__slots__'):
        fa = fields(a)
        for k in sorted(fa):
            w.check('field %s.%s kept' % (type(a).__name__, k),
                    hasattr(b, k))
            same(w, fa[k], getattr(b, k), '%s.%s' % (type(a).__name__, k),
                 seen)


def h_graph(key, depth=0):
    def f(w):
        m = copy.deepcopy(common.built(w, key))
        if depth:
            m = m.depthCorrect(depth)
        fill(w, m, [0], {})
        with Modules(w.T), Scratch() as d:
            p = os.path.join(d, 'some.model')
            ex, r = common.raises(m.writeModel, p)
            w.check('a model can be written', not ex)
            ex, r = common.raises(w.T.TauModelLoader.load, p)
            w.check('a written model can be loaded', not ex)
        same(w, m, r, '', {})
    return f


def h_results(key, depth, names, where):
    def f(w):
        m = copy.deepcopy(common.built(w, key))
        kept = copy.deepcopy(m)
        with Modules(w.T), Scratch() as d:
            if where == 'shifted':
                # a model already corrected for a source is written
                m, kept = m.depthCorrect(depth), kept.depthCorrect(depth)
            p = os.path.join(d, 'm')
            if where == 'used':
                # a model written after it has been queried
                w.T.TauP_Path.TauP_Path(m, ['P', 'PcP'], depth, 30.).run()
                w.T.TauP_Time.TauP_Time(m, ['P', 'Pn'], 10., 30.).run()
            m.writeModel(p)
            ex, r = common.raises(w.T.TauModelLoader.load, p)
            w.check('a written model can be loaded', not ex)
            deg = w.real('degrees', 0, 180)
            name = w.choice('phase', names)
            SP = w.T.SeismicPhase.SeismicPhase
            out = []
            for t in (kept, r):
                if where != 'shifted':
                    t = t.depthCorrect(depth)
                out.append((SP(name, t), SP(name, t).calcTime(deg)))
        (pa, a), (pb, b) = out
        w.check('phase', w.all(pa.puristName == pb.puristName,
                               list(pa.branchSeq) == list(pb.branchSeq)))
        w.check('number of arrivals', len(a) == len(b))
        for x, y in zip(a, b):
            w.check('arrival', w.all(
                w.close(x.time, y.time, 1e-6),
                w.close(x.dist, y.dist, 1e-9),
                w.close(x.rayParam, y.rayParam, 1e-6),
                w.close(x.takeoffAngle, y.takeoffAngle, 1e-6)
                if not w.sym else True, x.name == y.name))
        w.observe('arrivals', len(a))
    return f


ROWS = [(0, 6, 3), (40, 6, 3), (40, 8, 4), (3000, 13, 7), (3000, 8, 0),
        (5000, 10, 0), (5000, 11, 3), (6000, 11, 3)]
# names of models which may be present together
NAMES = ['earth', 'earth.v2', 'my-model_2', 'Earth', 'iasp91', 'tvel',
         'earth.tvel.x']
_COPY = {}


def package(w):
    """the package under check, in a scratch place where models can be
    written; one per process"""
    k = (os.getpid(), id(w.T))
    if k not in _COPY:
        import atexit
        d = tempfile.mkdtemp(prefix='symx')
        atexit.register(shutil.rmtree, d, True)
        shutil.copytree(w.T.root, os.path.join(d, 'taupy'),
                        ignore=shutil.ignore_patterns(
                            'tests', 'data', '__pycache__'))
        _COPY[k] = d, type(w.T)(w.T.sym, root=d), w.T
    d, T, _ = _COPY[k]
    T.reset()
    shutil.rmtree(os.path.join(d, 'taupy', 'data'), True)
    return d, T


def h_name(n, how):
    def f(w):
        root, T = package(w)
        names = [w.choice('name%d' % i, NAMES) for i in range(n)]
        for i, a in enumerate(names):
            for b in names[:i]:
                w.assume(a != b)
        saved, built = {}, {}
        with Modules(T), Scratch() as d:
            for i, name in enumerate(names):
                rows = [(z, p, s, w.real('rho%d_%d' % (i, j), 1, 15))
                        for j, (z, p, s) in enumerate(ROWS)]
                src = os.path.join(d, name + '.tvel')
                with open(src, 'w') as g:
                    g.write('model\n%s\n' % name + ''.join(
                        ' '.join(w.token(v * 1.0 if isinstance(v, int) else v)
                                 for v in r) + '\n' for r in rows))
                if how == 'name':
                    out = T.utils._get_model_filename(src)
                    w.check('built-in models are kept in the package',
                            os.path.realpath(out).startswith(
                                os.path.realpath(root) + os.sep))
                else:
                    out = os.path.join(d, 'out', name + how)
                w.check('every model has a file of its own',
                        out not in saved.values())
                tc = T.TauP_Create.TauP_Create(
                    src, out, False, .1, 5000., 5000., 10. * 18, 100., True)
                tc.loadVMod()
                tc.run()
                w.check('the model is written', os.path.exists(out))
                saved[name], built[name] = out, tc.tMod
            if how != 'name':
                # a model of the package by the same name
                if w.choice('package', [False, True]):
                    inside = T.utils._get_model_filename(
                        os.path.join(d, names[0] + '.tvel'))
                    os.makedirs(os.path.dirname(inside))
                    common.built(At(T), 'nomoho').writeModel(inside)
            name = w.choice('load', names)
            arg = name if how == 'name' else saved[name]
            ex, m = common.raises(T.tau.TauPyModel, arg)
            w.check('loads', not ex)
            m = m.model
        w.check('the model asked for', m.sMod.vMod.modelName == name)
        v, want = m.sMod.vMod.layers, built[name].sMod.vMod.layers
        w.check('layers', len(v) == len(want))
        for x, y in zip(v, want):
            w.check('layer', w.all(
                w.close(x.topDensity, y.topDensity, 1e-9),
                w.close(x.botDensity, y.botDensity, 1e-9),
                x.topDepth == y.topDepth, x.botDepth == y.botDepth))
        w.check('radius', m.radiusOfEarth == built[name].radiusOfEarth)
        w.check('ray parameters', m.rayParams == built[name].rayParams)
    return f


def h_history(n):
    """n models written one after the other, with loads in between; every
    load returns what was written there last"""
    def f(w):
        root, T = package(w)
        TL = T.TauModelLoader
        with Modules(T), Scratch() as d:
            inside = T.utils._get_model_filename('earth.tvel')
            w.check('built-in models are kept in the package',
                    os.path.realpath(inside).startswith(
                        os.path.realpath(root) + os.sep))
            for x in (inside, os.path.join(d, 'a', 'x'),
                      os.path.join(d, 'b', 'x')):
                os.makedirs(os.path.dirname(x))
            # (file, name to load it by)
            places = [(inside, 'earth')] + [
                (os.path.join(d, x, 'earth'),) * 2 for x in 'ab'] + [
                (os.path.join(d, 'a', 'earth.taup'),) * 2]
            last = {}
            for i in range(n):
                m = copy.deepcopy(common.built(At(T), 'nomoho'))
                m.sMod.vMod.layers[0].topDensity = w.real('rho%d' % i, 1, 9)
                where = w.choice('place%d' % i, places)
                m.writeModel(where[0])
                last[where] = m
                for at in places:
                    ex, r = common.raises(TL.load, at[1])
                    w.check('loads what exists', ex == (at not in last))
                    if not ex:
                        w.check('loads what was written last', w.close(
                            r.sMod.vMod.layers[0].topDensity,
                            last[at].sMod.vMod.layers[0].topDensity, 1e-9))
    return f


def h_create(w):
    """the interface function: velocity file in, model file out, anywhere"""
    root, T = package(w)
    rows = [(z, p, s, w.real('rho%d' % j, 1, 15))
            for j, (z, p, s) in enumerate(ROWS)]
    name = w.choice('name', ['earth', 'my-model_2', 'EARTH2'])
    given = name + w.choice('ending', ['', '.tvel'])
    here = os.getcwd()
    with Modules(T), Scratch() as d:
        os.chdir(d)
        try:
            src = w.choice('from', ['', '.', 'in', os.path.join(d, 'in')])
            out = w.choice('to', ['', '.', 'out', 'new', 'new/deep',
                                  os.path.join(d, 'out')])
            os.mkdir('out')
            os.mkdir('in')
            with open(os.path.join(src, name + '.tvel'), 'w') as g:
                g.write('model\n%s\n' % name + ''.join(
                    ' '.join(w.token(v * 1.0 if isinstance(v, int) else v)
                             for v in r) + '\n' for r in rows))
            made = {}
            real = T.TauP_Create.TauP_Create.createTauModel

            def create(self, vMod):
                # coarse sampling: the sampling itself is C07's
                self.max_delta_p = self.max_depth_interval = 5000.
                self.max_range_interval, self.max_interp_error = 180., 100.
                made['m'] = real(self, vMod)
                return made['m']
            T.TauP_Create.TauP_Create.createTauModel = create
            ex, _ = common.raises(T.tau.create_taup_model, given, out, src)
            w.check('the model is created', not ex and 'm' in made)
            f = [x for x in os.listdir(out or '.')
                 if os.path.splitext(x)[0] == name and not
                 x.endswith('.tvel')]
            w.check('one model file where it was asked for', len(f) == 1)
            ex, m = common.raises(T.tau.TauPyModel,
                                  os.path.join(out or '.', f[0]))
            w.check('loads', not ex)
        finally:
            os.chdir(here)
        m, want = m.model, made['m']
        w.check('the model asked for', m.sMod.vMod.modelName == name)
        v = m.sMod.vMod.layers
        w.check('layers', len(v) == len(rows) // 2)
        for j, x in enumerate(v):
            w.check('densities of the file', w.all(
                w.close(x.topDensity, rows[2 * j][3], 1e-9),
                w.close(x.botDensity, rows[2 * j + 1][3], 1e-9)))
        w.check('ray parameters', m.rayParams == want.rayParams)


def cases(tier):
    q = tier == 'quick'
    keys = ('plain', 'lvz-both', 'noJ') if q else sorted(common.MODELS)
    ph = ['P', 'pP', 'PKIKP', 'SKS', 'Pdiff', 'Pn', 'PP', 'P^10P',
          'P10s']
    out = [Case('graph-' + k, h_graph(k), min_checks=100,
                bounds='every number of a built model') for k in keys]
    out += [Case('graph-%s-%d' % (k, z), h_graph(k, z), min_checks=100,
                 bounds='every number of a model whose source was moved')
            for k, z in (('plain', 20), ('lvz-both', 250))]
    out += [Case('results-%s-%g-%s' % (k, z, x), h_results(k, z, ph, x),
                 bounds='phases %s, 0 to 180 degrees' % ' '.join(ph))
            for k, z, x in [('plain', 0, 'base'), ('plain', 20, 'base'),
                            ('plain', 20, 'shifted'),
                            ('plain', 20, 'used'),
                            ('lvz-both', 250, 'base')]]
    out += [Case('name1', h_name(1, 'name'), bounds='one model by name'),
            Case('name2', h_name(2, 'name'), bounds='two models by name')]
    out += [Case('history%d' % n, h_history(n),
                 bounds='%d models written to four places' % n)
            for n in ((1, 2) if q else (1, 2, 3))]
    out += [Case('path%d%s' % (n, e), h_name(n, e),
                 bounds='%d models by path' % n)
            for n, e in ((1, '.taup'), (2, '.taup'), (1, ''), (2, '.pickle'))]
    out.append(Case('create', h_create, bounds='every way to name the '
                    'velocity file and the directories'))
    return out
