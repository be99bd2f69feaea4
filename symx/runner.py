"""Runs the cases of one property, replays counterexamples on the real code,
writes evidence and prints the verdict."""
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback
import math
from fractions import Fraction

import z3

from . import core, loader, world
from .core import (Explorer, SymBool, SymReal, Found, PathEnd, Steer, b_not,
                   z3_fraction, Unsupported, Stats)
from .symstr import SymStr

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Case(object):
    def __init__(self, name, fn, nl=False, secs=150, max_paths=20000,
                 query_ms=4000, ob_ms=20000, validate=12, opener=None,
                 known=None, min_paths=1, min_checks=1, bounds='',
                 exc_ok=(), tries=200, need_ok=True, split=None):
        self.__dict__.update(locals())
        del self.self


class HarnessFn(object):
    """fn(ctx) for the explorer: builds a SymWorld and runs the harness."""

    def __init__(self, case, ldr):
        self.case, self.ldr = case, ldr

    def __call__(self, ctx):
        self.ldr.reset()
        w = world.SymWorld(ctx, self.ldr)
        w.known_mode = bool(self.case.known)
        try:
            self.case.fn(w)
        except Steer:
            raise
        except (PathEnd, Found):
            raise
        except RecursionError:
            raise Unsupported('recursion')
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if f.filename.startswith(self.ldr.root)]
            if not where and isinstance(e, Unsupported):
                raise
            # a harness that fails alone got a result it cannot use; like
            # any other candidate this must happen on the real code as well
            raise Found('%s %s: %s at %s:%s' % (
                'unexpected' if where else 'unusable result:',
                type(e).__name__, str(e)[:200],
                os.path.basename(tb[-1].filename), tb[-1].lineno), None,
                        'exc', e)


def _vals(ctx, model):
    out = {}
    for name, v in ctx.inputs.items():
        if v[0] == 'r':
            m = model.eval(v[1].z, model_completion=True)
            out[name] = z3_fraction(m)
        elif v[0] == 'c':
            out[name] = v[1]
        else:
            out[name] = ''.join(
                c if isinstance(c, str) else sorted(c.dom)[0]
                for c in v[1].cs)
    return out


def _jsonable(vals):
    return {k: (float(v) if isinstance(v, Fraction) else v)
            for k, v in vals.items()}


def _tight(conds, delta):
    """Strengthen simple strict comparisons by a margin."""
    d = z3.RealVal(str(delta))
    out = []

    def walk(b, val):
        n = b.node
        if n[0] == 'not':
            if isinstance(n[1], SymBool):
                walk(n[1], not val)
            return
        if n[0] == 'and' and val or n[0] == 'or' and not val:
            for x in n[1]:
                walk(x, val)
            return
        if n[0] != 'cmp':
            return
        op, r = n[1], n[2]
        if op == '==':
            return
        if len(r.f) != 1:
            return
        p, e = next(iter(r.f.items()))
        if e != 1:
            return
        z = core.CTX.poly_z3(p) * z3.RealVal(str(r.c))
        if val:
            out.append(z <= -d)
        else:
            out.append(z >= d)
    for c in conds:
        if isinstance(c, SymBool):
            walk(c, True)
    return out


def models(ctx, extra, n=8):
    """Some models of pc & extra, the best conditioned first."""
    zs = [extra.z()] if isinstance(extra, SymBool) else []
    conds = list(ctx.pc) + ([extra] if isinstance(extra, SymBool) else [])
    got = 0
    for delta in ('1', '1/10', '1/100', '1/10000', '1/1000000'):
        t = _tight(conds, Fraction(delta))
        if not t:
            break
        # drop the tightened forms that are individually impossible
        if ctx.query(*(zs + t), ms=3000) == 'sat':
            yield ctx.qmodel
            got += 1
            if got >= 3:
                break
    if ctx.query(*zs, ms=10000) == 'sat':
        yield ctx.qmodel
    # vary inputs away from the first model
    ins = [v[1].z for v in ctx.inputs.values() if v[0] == 'r']
    if ctx.qmodel is not None and ins:
        m0 = ctx.qmodel
        for i in range(min(n, 2 * len(ins))):
            z = ins[i % len(ins)]
            v = m0.eval(z, model_completion=True)
            try:
                c = (z > v + 1) if (i // len(ins)) % 2 == 0 else (z < v - 1)
            except Exception:
                continue
            if ctx.query(*(zs + [c]), ms=2000) == 'sat':
                yield ctx.qmodel


def run_concrete(case, values, ldr, rng=None):
    """('ok'|'discard'|'failed'|'exc'|'hang', detail, world)"""
    ldr.reset()
    w = world.ConWorld(values, ldr, rng=rng)
    w.known_mode = bool(case.known)
    try:
        with Alarm(HANG):
            case.fn(w)
        return 'ok', '', w
    except core.Hang:
        return 'hang', 'no result within %d s' % HANG, w
    except world.Discard as e:
        return 'discard', str(e), w
    except world.Failed as e:
        return 'failed', '%s %s' % (e.label, e.detail), w
    except RecursionError as e:
        return 'exc', 'RecursionError', w
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return 'exc', '%s: %s at %s' % (
            type(e).__name__, str(e)[:300],
            '; '.join('%s:%s' % (os.path.basename(f.filename), f.lineno)
                      for f in tb[-3:])), w


HANG = 30


class Alarm(object):
    """raise Hang in this thread after some seconds"""

    def __init__(self, secs):
        self.secs = secs

    def fire(self, *a):
        raise core.Hang()

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, self.fire)
        self.left = signal.setitimer(signal.ITIMER_REAL, self.secs)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        if self.left[1]:
            signal.setitimer(signal.ITIMER_REAL, self.left[1], self.left[1])


class Watch(object):
    """raise Hang when a path makes no progress towards the solver"""
    TICK, N = 5, 6

    def __init__(self, ex):
        self.ex, self.last, self.n, self.on = ex, None, 0, False

    def tick(self, *a):
        s = self.ex.stats
        cur = (s.paths, s.queries, s.decisions, s.obligations)
        self.n = self.n + 1 if cur == self.last and self.on else 0
        self.last = cur
        if self.n >= self.N:
            self.n = 0
            raise core.Hang()

    def start(self):
        signal.signal(signal.SIGALRM, self.tick)
        signal.setitimer(signal.ITIMER_REAL, self.TICK, self.TICK)

    def stop(self):
        signal.setitimer(signal.ITIMER_REAL, 0)


class Replayer(object):
    def __init__(self, case):
        self.case = case

    def fresh(self):
        return loader.Loader(False, opener=self.case.opener)


def explore_case(args):
    modname, tier, seed, idx, deadline, part = args
    mod = importlib.import_module('checks.' + modname)
    case = mod.cases(tier)[idx]
    return run_case(case, seed, deadline, part)


def run_case(case, seed, deadline, part=0):
    t0 = time.time()
    res = {'case': case.name, 'violation': None, 'unconfirmed': [],
           'error': None, 'bounds': case.bounds}
    try:
        ldr = loader.Loader(True, opener=case.opener)
    except Exception as e:
        res['error'] = 'cannot load the code: %r' % e
        return res
    fn = HarnessFn(case, ldr)
    dl = min(deadline, time.time() + case.secs)
    ex = Explorer(fn, nl=case.nl, query_ms=case.query_ms, ob_ms=case.ob_ms,
                  max_paths=case.max_paths, deadline=dl, seed=seed)
    if case.split:
        ex.split = (case.split[0], case.split[1], part)
    funcs = set()
    root = ldr.root
    state = {'okpaths': 0, 'n': 0, 'first': True, 'checks': 0,
             'nontrivial': 0}
    rng = random.Random(seed)
    samples = []
    raw = [0]

    def prof(frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(root):
                funcs.add('%s:%s' % (os.path.relpath(co.co_filename, root),
                                     co.co_qualname))

    last = [None]

    def confirm(ctx, outcome):
        """replay on the real code; returns (values, detail) or None"""
        f = outcome[1]
        last[0] = None
        tried = 0
        seen = set()
        for m in models(ctx, f.cond if isinstance(f, Found) else None):
            try:
                vals = _vals(ctx, m)
            except Unsupported:
                continue
            key = repr(vals)
            last[0] = _jsonable(vals)
            if key in seen:
                continue
            seen.add(key)
            tried += 1
            st, detail, w = run_concrete(case, _jsonable(vals),
                                         loader.Loader(False,
                                                       opener=case.opener))
            if st in ('failed', 'exc', 'hang'):
                return _jsonable(vals), detail
            # small perturbations of the model
            for k in range(6):
                pv = {a: (v * (1 + rng.uniform(-1, 1) * 10 ** -(k + 1))
                          if isinstance(v, Fraction) else v)
                      for a, v in vals.items()}
                pv = {a: (float(v) if not isinstance(v, (str, int)) else v)
                      for a, v in pv.items()}
                st, detail, w = run_concrete(
                    case, pv, loader.Loader(False, opener=case.opener))
                if st in ('failed', 'exc', 'hang'):
                    return pv, detail
        # other inputs of the same harness
        fixed = {n: v[1] for n, v in ctx.inputs.items() if v[0] == 'c'}
        for n, v in ctx.inputs.items():
            if v[0] == 's':
                fixed[n] = ''.join(c if isinstance(c, str)
                                   else sorted(c.dom)[0] for c in v[1].cs)
        cl = loader.Loader(False, opener=case.opener)
        for k in range(case.tries):
            st, detail, w = run_concrete(case, dict(fixed), cl,
                                         rng=random.Random(seed * 1000 + k))
            if st in ('failed', 'exc', 'hang'):
                return dict(w.used), detail
        return None

    def validate(ctx):
        """Run this path's witness on the real code and compare."""
        m = None
        for mm in models(ctx, None, n=0):
            m = mm
            break
        if m is None:
            ex.stats.val_skipped += 1
            return
        try:
            vals = _vals(ctx, m)
        except Unsupported:
            ex.stats.val_skipped += 1
            return
        jv = _jsonable(vals)
        st, detail, w = run_concrete(case, jv, loader.Loader(
            False, opener=case.opener))
        sample = {'case': case.name, 'inputs': {
            k: (round(v, 9) if isinstance(v, float) else v)
            for k, v in list(jv.items())[:14]}, 'real_code': st,
            'decisions': len(ctx.trace), 'obligations': ctx.checks}
        if st != 'ok':
            ex.stats.val_skipped += 1
            if st != 'discard':
                ex.stats.val_mismatch += 1
                sample['detail'] = detail
        else:
            env = ctx.numeric_env(vals)
            good = True
            try:
                ok = all(c.evalf(env) for c in ctx.pc
                         if isinstance(c, SymBool))
                if ok and len(w.observed) == len(ctx.observed):
                    for (l, a), (_, b) in zip(ctx.observed, w.observed):
                        if type(a) is SymReal:
                            x = a.r.evalf(env)
                            if abs(x - b) > 1e-6 * max(1, abs(x), abs(b)):
                                good = False
                                sample['detail'] = '%s: %r vs real %r' % (
                                    l, x, b)
            except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                pass
            if good:
                ex.stats.validated += 1
            else:
                ex.stats.val_mismatch += 1
        if len(samples) < 6 or 'detail' in sample:
            samples.append(sample)

    def hang(ctx, outcome):
        for m in models(ctx, None, n=0):
            try:
                vals = _jsonable(_vals(ctx, m))
            except Unsupported:
                break
            st, detail, w = run_concrete(case, vals, loader.Loader(
                False, opener=case.opener))
            if st == 'hang':
                res['violation'] = {'label': 'the code does not finish',
                                    'inputs': vals, 'detail': detail}
                return True
            break
        if outcome[1] is not None:
            ex.note_inconclusive('no progress')
        return False

    def handler(ctx, outcome):
        kind = outcome[0]
        state['checks'] += ctx.checks
        state['nontrivial'] += ctx.checks_nontrivial
        if kind == 'end':
            return False
        if kind == 'ok':
            state['okpaths'] += 1
            n = state['okpaths']
            if ex.stats.validated + ex.stats.val_mismatch < (
                    case.validate if not case.split else 3) \
                    and (n <= 6 or n % 7 == 0):
                validate(ctx)
            return False
        if kind == 'unsupported':
            res.setdefault('unsupported', []).append(str(outcome[1])[:200])
            return False
        if kind == 'hang':
            saved, ex.deadline = ex.deadline, None
            try:
                return hang(ctx, outcome)
            finally:
                ex.deadline = saved
        # refuted obligation
        saved = ex.deadline
        ex.deadline = max(ex.deadline, time.time() + 60)
        try:
            got = confirm(ctx, outcome)
        finally:
            ex.deadline = saved
        f = outcome[1]
        if got is None and (ctx.lnpairs or ctx.asins or ctx.sincos):
            # the transcendental functions are only axiomatised: a spurious
            # model is an incompleteness of the theory, not an answer
            res.setdefault('abstract', []).append(
                '%s: candidate rejected by the real code' % f.label)
            if os.environ.get('SYMX_DEBUG'):
                print(case.name, f.label, ctx.trace, _jsonable(
                    _vals(ctx, next(iter(models(ctx, f.cond))))))
                print(ctx.zpc, f.cond.node if hasattr(f.cond, 'node')
                      else f.cond)
            return len(res['abstract']) >= 6
        if got is None:
            if len(res['unconfirmed']) < 5:
                res['unconfirmed'].append(
                    {'label': f.label, 'path': len(ctx.trace),
                     'candidate': last[0]})
            return len(res['unconfirmed']) >= 3
        res['violation'] = {'label': f.label, 'inputs': got[0],
                            'detail': got[1]}
        return True

    sys.setprofile(prof)
    try:
        # profile only the first seconds: the set of functions reached
        t1 = time.time()

        class Stop(object):
            pass
        orig = fn.__call__

        watch = Watch(ex)

        def wrapped(ctx):
            watch.on = True
            try:
                return wrapped2(ctx)
            finally:
                watch.on = False

        def wrapped2(ctx):
            state['n'] += 1
            if state['n'] % 16 == 1 and time.time() - t1 < 20:
                sys.setprofile(prof)
            else:
                sys.setprofile(None)
            return fn(ctx)
        ex.fn = wrapped
        watch.start()
        ex.run(handler)
    except Exception as e:
        res['error'] = 'harness error: %s' % traceback.format_exc()[-1500:]
    finally:
        sys.setprofile(None)
        watch.stop()
    res.update(
        stats=dict(ex.stats.__dict__), complete=ex.complete,
        inconclusive=sorted(set(ex.inconclusive)),
        n_inconclusive=len(ex.inconclusive),
        functions=sorted(funcs), samples=samples[:8],
        okpaths=state['okpaths'], nontrivial=state['nontrivial'],
        wall=round(time.time() - t0, 2), known=case.known)
    res['want'] = (case.min_paths, case.min_checks, case.need_ok)
    return res


def merge(results):
    """One result per case from the results of its parts."""
    out = {}
    for r in results:
        o = out.get(r['case'])
        if o is None:
            out[r['case']] = r
            continue
        for k in ('violation', 'error'):
            o[k] = o.get(k) or r.get(k)
        o['unconfirmed'] += r['unconfirmed']
        if 'abstract' in r:
            o['abstract'] = o.get('abstract', []) + r['abstract']
        if 'unsupported' in r:
            o['unsupported'] = o.get('unsupported', []) + r['unsupported']
        if 'stats' in r and 'stats' in o:
            for k, v in r['stats'].items():
                o['stats'][k] += v
            o['complete'] = o['complete'] and r['complete']
            o['inconclusive'] = sorted(set(o['inconclusive'] +
                                           r['inconclusive']))
            o['n_inconclusive'] += r['n_inconclusive']
            o['functions'] = sorted(set(o['functions'] + r['functions']))
            o['samples'] += r['samples']
            o['okpaths'] += r['okpaths']
            o['wall'] = max(o['wall'], r['wall'])
    for r in out.values():
        if not r['violation'] and not r['error'] and 'want' in r:
            mp, mc, need = r['want']
            if r.get('abstract'):
                r['inconclusive'] = r['inconclusive'] + r['abstract'][:3]
                r['n_inconclusive'] += len(r['abstract'])
            if need and not r['unconfirmed'] and (
                    r['okpaths'] < mp or r['stats']['obligations'] < mc):
                r['vacuous'] = True
    return [out[k] for k in sorted(out)]


def load_known():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('KNOWN '):
                _, pid, key, desc = line.split(None, 3)
                out[(pid, key)] = desc
    return out


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--case')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    pid = a.prop
    modname = pid.lower()
    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    mod = importlib.import_module('checks.' + modname)
    cases = mod.cases(tier)
    if a.replay:
        rp = json.load(open(a.replay))
        allc = {c.name: c for c in cases}
        if rp['case'] not in allc:
            allc = {c.name: c for c in mod.cases('thorough')}
        case = allc[rp['case']]
        st, detail, w = run_concrete(case, rp['inputs'],
                                     loader.Loader(False,
                                                   opener=case.opener))
        print('replay %s: %s %s' % (rp['case'], st, detail))
        return 1 if st in ('failed', 'exc', 'hang') else 0
    t0 = time.time()
    limit = 600 if tier == 'quick' else 3000
    deadline = t0 + limit
    idxs = [i for i, c in enumerate(cases)
            if not a.case or a.case in c.name]
    jobs = [(modname, tier, seed, i, deadline, p) for i in idxs
            for p in range(cases[i].split[1] if cases[i].split else 1)]
    results = []
    if a.jobs == 1 or len(jobs) == 1:
        for j in jobs:
            results.append(explore_case(j))
    else:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(min(a.jobs, len(jobs)), maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(explore_case, jobs, 1):
                results.append(r)
                if r['violation'] and not r.get('known'):
                    # one confirmed counterexample decides
                    pool.terminate()
                    break
    results = merge(results)
    known = load_known()
    viol, errors, incon = [], [], []
    for r in results:
        if a.v:
            s = r.get('stats', {})
            print('%-34s paths=%s dec=%s q=%s solver=%.1fs ob=%s triv=%s '
                  'val=%s/%s mm=%s complete=%s wall=%s%s' % (
                      r['case'], s.get('paths'), s.get('decisions'),
                      s.get('queries'), s.get('solver_s', 0),
                      s.get('obligations'), s.get('trivial'),
                      s.get('validated'), s.get('val_skipped'),
                      s.get('val_mismatch'), r.get('complete'),
                      r.get('wall'),
                      ''.join(' %s=%s' % (k, r[k]) for k in (
                          'violation', 'unconfirmed', 'error', 'vacuous',
                          'unsupported', 'inconclusive')
                          if r.get(k))))
            if s.get('val_mismatch'):
                for x in r['samples']:
                    if 'detail' in x:
                        print('    mismatch', x)
        if r['violation']:
            if r.get('known'):
                k = (pid, r['known'])
                if k in known:
                    print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
                    continue
            viol.append(r)
        elif r['error']:
            errors.append((r['case'], r['error']))
        elif r.get('known'):
            continue
        elif r['unconfirmed']:
            errors.append((r['case'], 'counterexample did not reproduce on '
                           'the real code: %s' % r['unconfirmed']))
        elif r.get('vacuous') and not (
                len(results) > 1 and
                (r.get('unsupported') or r.get('inconclusive')) and
                not all(x.get('vacuous') for x in results)):
            errors.append((r['case'], 'vacuous: no path reached the '
                           'assertions (%s)' % (r.get('unsupported')
                                                or r.get('inconclusive'))))
        if r.get('inconclusive') or r.get('unsupported') \
                or not r.get('complete'):
            incon.append({'case': r['case'],
                          'reasons': (r.get('inconclusive') or [])[:5] +
                          (r.get('unsupported') or [])[:5]})
    tot = Stats()
    funcs = set()
    samples = []
    for r in results:
        if 'stats' in r:
            for k, v in r['stats'].items():
                setattr(tot, k, getattr(tot, k) + v)
        funcs.update(r.get('functions', ()))
        samples += r.get('samples', [])[:3]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': tot.paths,
            'transitions': tot.decisions,
            'traces_validated_against_impl': tot.validated,
            'samples': samples[:20] or [{'none': True}],
            'exhaustive': not incon and not viol and not errors,
            'obligations': tot.obligations,
            'discharged': tot.obligations - sum(
                r.get('n_inconclusive', 0) for r in results),
            'obligations_trivially_true': tot.trivial,
            'solver_queries': tot.queries,
            'solver_seconds': round(tot.solver_s, 2),
            'solver_unknown': tot.unknown,
            'witnesses_not_comparable': tot.val_skipped,
            'witnesses_differing': tot.val_mismatch,
            'values_concretized': tot.concretized,
            'functions_encoded': sorted(funcs),
            'bounds': {r['case']: r['bounds'] for r in results},
            'cases': len(results),
            'inconclusive': incon,
            'explanation': 'states = feasible paths of the real code '
            'explored symbolically; transitions = branch decisions settled '
            'by the solver; each path was checked for all inputs on it',
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    if not a.no_evidence and not a.case:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    for c in incon:
        print('INCONCLUSIVE property=%s case=%s %s' % (pid, c['case'],
                                                       c['reasons'][:3]))
    if viol:
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        for r in viol:
            p = os.path.join(d, '%s-%s.json' % (
                pid, ''.join(ch if ch.isalnum() else '_'
                             for ch in r['case'])))
            v = r['violation']
            with open(p, 'w') as f:
                json.dump({'property': pid, 'case': r['case'],
                           'label': v['label'], 'inputs': v['inputs'],
                           'detail': v['detail'],
                           'replay_cmd': '/opt/venv/bin/python '
                           '/verif/check.py %s --replay %s' % (pid, p)},
                          f, indent=1, default=str)
            print('%s: %s -> %s; inputs %s' % (
                r['case'], v['label'], v['detail'],
                json.dumps(v['inputs'], default=str)[:600]))
            print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if errors:
        for c, e in errors:
            print('ERROR property=%s case=%s %s' % (pid, c, e))
        return 2
    print('OK property=%s cases=%d paths=%d obligations=%d queries=%d '
          'solver=%.1fs wall=%.1fs' % (
              pid, len(results), tot.paths, tot.obligations, tot.queries,
              tot.solver_s, time.time() - t0))
    return 0
