"""Explore all paths of a harness, discharge its assertions, validate models on the real package."""
from __future__ import annotations

import hashlib
import json
import os
import random
import subprocess
import sys
import time
import traceback

import numpy as np
import z3

from . import core as C
from . import load as L
from .ctx import SymCtx

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Concrete:
    """the unmodified package in its own process"""

    def __init__(self, timeout=120):
        self.p = None
        self.timeout = timeout
        self.runs = 0

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        self.p = subprocess.Popen([sys.executable, '-B', os.path.join(HERE, 'sx', 'concrete.py')],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env, cwd=HERE)

    def run(self, job):
        import select
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.runs += 1
        try:
            self.p.stdin.write(json.dumps(job) + '\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            self.p = None
            return {'error': 'worker died'}
        r, _, _ = select.select([self.p.stdout], [], [], job.get('timeout', self.timeout))
        if not r:
            self.p.kill()
            self.p.wait()
            self.p = None
            return {'hang': True, 'violations': [['terminates', 'no result within the time limit']], 'obs': []}
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return {'error': 'worker died'}
        return json.loads(line)

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


def val(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = v.as_fraction()
        try:
            return float(f)
        except OverflowError:
            return float('inf')
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


def extract(en, cx, m):
    values = {n: val(m, v) for n, v in en.vars.items()}
    tables = {}
    for name, apps in en.ufapps.items():
        if name.startswith('$'):
            continue
        tables[name] = [[[val(m, a) for a in args], val(m, r)] for args, r in apps]
    return dict(values=values, tables=tables, choices=dict(cx.choices))


def symval(m, v):
    """evaluate an observed symbolic value in a model, in the shape ConCtx.observe produces"""
    if isinstance(v, np.ndarray):
        return [symval(m, x) for x in v.ravel().view(np.ndarray)]
    if isinstance(v, C.Sym):
        for g, e in v.lv:
            if g is None or z3.is_true(m.eval(g, model_completion=True)):
                return e if C.is_special(e) else val(m, e)
        return None
    if isinstance(v, C.SymBool):
        return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, C.SymTD):
        return val(m, v.us) / 1e6
    if hasattr(v, 'total_seconds'):
        return v.total_seconds()
    if isinstance(v, (list, tuple)):
        return [symval(m, x) for x in v]
    if isinstance(v, dict):
        return {str(k): symval(m, x) for k, x in v.items()}
    if hasattr(v, 'tolist') and not isinstance(v, (str, bytes)):
        return symval(m, v.tolist())
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return str(v)


def close(a, b, tol):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(close(a[k], b[k], tol) for k in a)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or (a != a and b != b):
            return True
        return abs(a - b) <= tol * (1 + abs(a) + abs(b))
    if isinstance(a, str) and '<sym' in a:
        return True
    if (a is None or a != a) and (b is None or b != b):
        return True
    return a == b


class Explorer:
    def __init__(self, pid, modname, hname, fn, config, opts, seed=1, conc=None):
        self.pid, self.modname, self.hname, self.fn, self.config = pid, modname, hname, fn, config
        self.opts = opts
        self.seed = seed
        self.rng = random.Random(f'{seed}/{pid}/{hname}/{sorted(config.items())}')
        self.conc = conc or Concrete()
        self.en = C.Engine(timeout_ms=opts.get('timeout_ms', 20000), max_decisions=opts.get('max_decisions', 400))
        self.res = dict(harness=hname, config=config, paths=0, infeasible=0, concretised=0, concretised_runs=0,
                        reached=0, validated=0, mismatches=[], violations=[], nonrepro=[], unknown=[], truncated=0,
                        samples=[], notes=[], tags={})

    # ------------------------------------------------------------------ model selection
    def solve(self, extra, timeout=None):
        s = z3.Solver()
        s.set('timeout', timeout or self.opts.get('assert_timeout_ms', 60000))
        for c in self.en.pc:
            s.add(c)
        for c in extra:
            s.add(c)
        t = time.time()
        r = s.check()
        dtm = time.time() - t
        self.en.stats['solver_s'] += dtm
        return r, s

    def randomised(self, s, cx, budget=1.5):
        """a model of s with generic values: fix inputs to random small numbers where possible"""
        t0 = time.time()
        s.set('timeout', 3000)
        for c in cx.nice:
            s.push()
            s.add(c)
            if s.check() != z3.sat:
                s.pop()
        items = [v for v in self.en.vars.values()]
        for name, apps in self.en.ufapps.items():
            if not name.startswith('$') and not getattr(cx, 'mono_names', {}).get(name):
                items += [r for _, r in apps]
        guess = []
        for v in items:
            if v.sort() == C.INT:
                guess.append((v, v == self.rng.choice([1, 2, 3, 5, 7, 10, 3600 * 10**6, 7200 * 10**6, 10**7])))
            elif v.sort() == C.REAL:
                guess.append((v, v == z3.RealVal(str(round(self.rng.choice([1, 1, 1, -1]) *
                                                             self.rng.choice([0.37, 1.7, 3.1, 12.3]) *
                                                             (1 + self.rng.random()), 3)))))
        self.rng.shuffle(guess)

        def attempt(gs):
            if not gs or time.time() - t0 > budget or time.time() > self.opts.get('deadline', 1e12):
                return
            s.push()
            for _, g in gs:
                s.add(g)
            if s.check() == z3.sat:
                return  # keep pushed
            s.pop()
            if len(gs) == 1:
                return
            h = len(gs) // 2
            attempt(gs[:h])
            attempt(gs[h:])
        if s.check() != z3.sat:
            return None
        m0 = s.model()
        attempt(guess)
        if s.check() == z3.sat:
            return s.model()
        return m0

    def job(self, data, timeout=None):
        j = dict(module=self.modname, harness=self.hname, config=self.config, **data)
        if timeout:
            j['timeout'] = timeout
        return j

    # ------------------------------------------------------------------ one path
    def run(self):
        work = [[]]
        t0 = time.time()
        lim = self.opts.get('max_paths', 4000)
        budget = self.opts.get('budget_s', 600)
        while work:
            if self.res['paths'] >= lim or time.time() - t0 > budget or time.time() > self.opts.get('deadline', 1e12):
                self.res['truncated'] += len(work)
                break
            prefix = work.pop()
            self.one(prefix)
            work.extend(self.en.alts)
            if self.res['violations'] and not self.opts.get('all'):
                break
        self.res['stats'] = dict(self.en.stats)
        self.res['wall'] = time.time() - t0
        self.res['concrete_runs'] = self.conc.runs
        return self.res

    def one(self, prefix):
        en = self.en
        en.reset(prefix)
        C.set_engine(en)
        C.TOKENS.clear()
        L.STUBS.clear()
        cx = SymCtx(en)
        cx.explorer = self
        exc = None
        try:
            self.fn(cx, **self.config)
        except C.Infeasible:
            self.res['infeasible'] += 1
            return
        except (C.Unsupported, C.PathLimit) as e:
            exc = e
        except RecursionError as e:
            exc = C.Unsupported('recursion')
        except Exception as e:  # noqa: BLE001
            exc = e
        finally:
            L.STUBS.clear()
            if hasattr(cx, 'cleanup'):
                cx.cleanup()
        self.res['paths'] += 1
        en.stats['paths'] += 1
        if exc is not None:
            self.concretise(cx, exc)
            return
        self.discharge(cx)

    def concretise(self, cx, exc):
        """outside the encoding, or an exception: decide this path with solver-chosen concrete runs, and say so"""
        en = self.en
        why = f'{type(exc).__name__}: {exc}'
        tb = traceback.extract_tb(exc.__traceback__)
        where = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[-3:]]
        unexpected = not isinstance(exc, C.SxAbort)
        hits = 0
        for i in range(self.opts.get('concretise_runs', 6)):
            r, s = self.solve([])
            if r != z3.sat:
                if r == z3.unsat:
                    self.res['infeasible'] += 1
                    self.res['paths'] -= 1
                    return
                self.res['unknown'].append('concretise ' + why)
                return
            m = self.randomised(s, cx) if i else s.model()
            if m is None:
                m = s.model()
            data = extract(en, cx, m)
            out = self.conc.run(self.job(data, timeout=self.opts.get('hang_s', 60)))
            self.res['concretised_runs'] += 1
            if out.get('skip') or out.get('error'):
                self.res['notes'].append(f'concretise run: {out}'[:300])
                continue
            hits += 1
            if out['violations']:
                self.report(out, data, f'path outside the encoding ({why})')
                return
        self.res['concretised'] += 1
        self.res['notes'].append(f'concretised path: {why} at {where} ({hits} concrete runs passed)')

    def report(self, out, data, how):
        self.res['violations'].append(dict(labels=out['violations'][:5], data=data, how=how))

    def discharge(self, cx):
        en = self.en
        st = en.stats
        r0, s0 = self.solve([])
        if r0 == z3.unsat:  # a harness precondition stated after the code ruled this path out
            self.res['infeasible'] += 1
            self.res['paths'] -= 1
            st['paths'] -= 1
            return
        open_ = [(l, c, s) for l, c, s in cx.checks if not z3.is_true(c)]
        self.res['tags']['asserts'] = self.res['tags'].get('asserts', 0) + len(cx.checks)
        if cx.checks:
            self.res['reached'] += 1
        doubt = False
        if open_:
            st['asserts'] += len(open_)
            bad = self.query(z3.Or(*[z3.Not(c) for _, c, _ in open_]), 'all')
            if bad is False:
                st['proved'] += len(open_)
            else:
                for l, c, s in open_:
                    r = self.query(z3.Not(c), l) if len(open_) > 1 else bad
                    if r is False:
                        st['proved'] += 1
                        continue
                    if r is None:
                        st['unknown_assert'] += 1
                        self.res['unknown'].append(l)
                        doubt = True
                        continue
                    n0 = len(self.res['nonrepro'])
                    self.counterexample(cx, l, c, s)
                    if self.res['violations']:
                        return
                    if len(self.res['nonrepro']) > n0:
                        doubt = True
                        if len(self.res['nonrepro']) > 6:
                            break
        if doubt:
            # the solver gave no usable answer for an assertion: look for a failure with generic values of this path
            self.generic_runs(cx)
            if self.res['violations']:
                return
        self.witness(cx, r0, s0)

    def generic_runs(self, cx, n=5):
        for _ in range(n):
            r, s = self.solve([], 10000)
            if r != z3.sat:
                return
            m = self.randomised(s, cx)
            if m is None:
                return
            data = extract(self.en, cx, m)
            out = self.conc.run(self.job(data, timeout=self.opts.get('hang_s', 60)))
            if out.get('violations'):
                self.report(out, data, 'generic values of a path with an undecided assertion')
                return

    def query(self, neg, label):
        """False: no violation (unsat); True: sat; None: unknown"""
        r, s = self.solve([neg])
        if r == z3.unknown:
            t = time.time()
            s2 = z3.Then('simplify', 'solve-eqs', 'ctx-simplify', 'qfnra-nlsat').solver() if False else None
            r2 = cvc5_check(s, self.opts.get('assert_timeout_ms', 60000))
            self.en.stats['solver_s'] += time.time() - t
            self.en.stats['cvc5_fallback'] = self.en.stats.get('cvc5_fallback', 0) + 1
            r = {'sat': z3.sat, 'unsat': z3.unsat}.get(r2, z3.unknown)
        elif self.opts.get('cross') and r == z3.unsat:
            r2 = cvc5_check(s, 20000)
            k = 'cross_' + (r2 or 'unknown')
            self.en.stats[k] = self.en.stats.get(k, 0) + 1
            if r2 == 'sat':
                self.res['notes'].append(f'solver disagreement on {label}')
                return None
        if r == z3.unsat:
            return False
        if r == z3.sat:
            return True
        return None

    def counterexample(self, cx, label, c, strong):
        en = self.en
        tried = []
        neg = z3.Not(c)
        bounds = [z3.And(v >= -1000, v <= 1000) for v in en.vars.values() if v.sort() == C.REAL]
        attempts = []
        for extra in ([strong] if strong is not None else [None]) + ([None] if strong is not None else []):
            base = [neg] + ([extra] if extra is not None else [])
            attempts += [('rand', base + bounds), ('rand', base), ('plain', base + cx.nice), ('plain', base),
                         ('rand', base)]
        for mode, cons in attempts:
            r, s = self.solve(cons, 15000)
            if r != z3.sat:
                continue
            m = self.randomised(s, cx) if mode == 'rand' else s.model()
            if m is None:
                m = s.model() if s.check() == z3.sat else None
                if m is None:
                    continue
            data = extract(en, cx, m)
            key = json.dumps(data, sort_keys=True)
            if key in tried:
                continue
            tried.append(key)
            out = self.conc.run(self.job(data, timeout=self.opts.get('hang_s', 60)))
            if not out.get('violations') and not out.get('skip') and self.opts.get('strict', True):
                data = dict(data, strict=True)
                out = self.conc.run(self.job(data, timeout=self.opts.get('hang_s', 60)))
            if out.get('violations'):
                self.report(out, data, f'solver counterexample to "{label}"')
                return
            last = out
        if not tried:
            self.res['unknown'].append(label + ' (no model)')
            self.en.stats['unknown_assert'] += 1
            return
        self.res['nonrepro'].append(dict(label=label, tries=len(tried), last=str(last)[:300],
                                         data=json.loads(tried[-1])))

    def witness(self, cx, r, s):
        """reachability witness of this path, replayed on the real package"""
        n = self.opts.get('witnesses', 30)
        if self.res['validated'] + len(self.res['mismatches']) >= n:
            return
        if r != z3.sat:
            self.res['notes'].append('no witness model (solver unknown)')
            return
        m = self.randomised(s, cx)
        if m is None:
            return
        data = extract(self.en, cx, m)
        out = self.conc.run(self.job(data))
        if out.get('error') or out.get('skip'):
            self.res['notes'].append(f'witness run: {str(out)[:300]}')
            return
        if out['violations']:
            self.report(out, data, 'witness of a proved path fails on the real package')
            return
        want = [(l, symval(m, v)) for l, v in cx.obs]
        got = out['obs']
        tol = self.opts.get('obs_tol', 1e-6)
        if not any(k.startswith('$') for k in self.en.ufapps):
            for (l, a), (l2, b) in zip(want, got):
                if l != l2 or not close(a, b, tol):
                    self.res['mismatches'].append(f'{l}: encoding {str(a)[:200]} real {l2} {str(b)[:200]}')
                    return
            if len(want) != len(got):
                self.res['mismatches'].append('different number of observations')
                return
        self.res['validated'] += 1
        if len(self.res['samples']) < 2:
            v = dict(list(data['values'].items())[:12])
            self.res['samples'].append(dict(harness=self.hname, config=self.config, choices=data['choices'],
                                            inputs=v, decisions=len(self.en.taken),
                                            asserts=[l for l, _, _ in cx.checks][:6]))


def cvc5_check(s, timeout_ms):
    import tempfile
    smt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(smt)
        p = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit', str(int(timeout_ms)), p], capture_output=True, text=True,
                           timeout=timeout_ms / 1000 + 20)
        o = r.stdout.strip().split('\n')[0] if r.stdout.strip() else ''
        if '(error' in r.stdout:
            return None
        return o if o in ('sat', 'unsat') else None
    except Exception:  # noqa: BLE001
        return None
    finally:
        os.unlink(p)
