"""Decide one property: python run.py C05 [--tier quick|thorough] [--harness NAME] [--jobs N] [--replay FILE]"""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('SX_REPO', '/repo')
EVID = os.environ.get('SX_EVID', os.path.join(HERE, 'evidence'))
warnings.simplefilter('ignore')

import numpy as np  # noqa: E402
import pandas  # noqa: E402,F401

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402

from sx import core as C, load as L, explore as X  # noqa: E402
from sx.env import fake_frameworks, quiet  # noqa: E402


def boot():
    fake_frameworks()
    L.install(REPO)
    np.seterr(all='ignore')
    import gerabaldi
    assert os.path.realpath(gerabaldi.__file__).startswith(os.path.realpath(REPO) + '/')
    quiet()


_conc = None


def task(args):
    global _conc
    pid, modname, hname, cfg, opts, seed = args
    if _conc is None:
        _conc = X.Concrete()
    _conc.runs = 0
    h = importlib.import_module(modname).HARNESS[hname]
    L.ENTERED.clear()
    ex = X.Explorer(pid, modname, hname, h['fn'], cfg, opts, seed, _conc)
    try:
        r = ex.run()
    except BaseException as e:  # noqa: BLE001
        import traceback
        r = dict(ex.res, crash=traceback.format_exc()[-3000:], stats=dict(ex.en.stats), wall=0)
        if isinstance(e, KeyboardInterrupt):
            raise
    r['functions'] = dict(L.ENTERED)
    return r


def load_known():
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith('{'):
                    out.append(json.loads(line))
    return out


def source_hash():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(REPO, 'gerabaldi'))):
        for f in sorted(fs):
            if f.endswith('.py'):
                with open(os.path.join(d, f), 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def replay(path):
    with open(path) as f:
        j = json.load(f)
    c = X.Concrete()
    out = c.run(j['job'])
    c.stop()
    for v in out.get('violations', []):
        print('  fails:', v[0], '-', v[1])
    if out.get('violations'):
        print(f'VIOLATION property={j["property"]} replay={path}')
        return 1
    print('not reproduced on this tree:', str(out)[:300])
    return 0


def selftest():
    """the tools the checks need are there and the current tree loads into the engine"""
    import shutil
    assert shutil.which('cvc5'), 'cvc5 is missing'
    s = z3.Solver()
    x = z3.Real('x')
    s.add(x * x == 2, x > 0)
    assert s.check() == z3.sat
    boot()
    n = 0
    for f in sorted(os.listdir(os.path.join(HERE, 'harness'))):
        if f.startswith('c') and f.endswith('.py'):
            n += len(importlib.import_module('harness.' + f[:-3]).HARNESS)
    print(f'ready: z3 {z3.get_version_string()}, {n} harnesses')
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--harness')
    ap.add_argument('--config', type=int)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('SX_JOBS', '8')))
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.selftest:
        sys.exit(selftest())
    if a.replay:
        sys.exit(replay(a.replay))
    t0 = time.time()
    pid = a.prop
    seed = int(os.environ.get('VERIF_SEED', '1'))
    modname = f'harness.{pid.lower()}'
    evfile = os.path.join(EVID, f'{pid}.json')
    os.makedirs(os.path.dirname(evfile), exist_ok=True)
    imp_err = None
    try:
        boot()
    except Exception as e:  # the tree does not even import symbolically
        imp_err = e
        raise
    mod = importlib.import_module(modname)
    tasks = []
    for hn, h in mod.HARNESS.items():
        if a.harness and hn != a.harness:
            continue
        opts = dict(h.get('opts', {}))
        if a.tier == 'thorough':
            opts.update(h.get('thorough_opts', {}))
            opts['cross'] = True
        opts.setdefault('budget_s', 200 if a.tier == 'quick' else 2400)
        opts['deadline'] = t0 + (540 if a.tier == 'quick' else 6 * 3600)
        opts.setdefault('assert_timeout_ms', 20000 if a.tier == 'quick' else 90000)
        for i, cfg in enumerate(h['configs'](a.tier)):
            if a.config is not None and i != a.config:
                continue
            tasks.append((pid, modname, hn, cfg, opts, seed))
    results = []
    if a.jobs <= 1 or len(tasks) == 1:
        for t in tasks:
            results.append(task(t))
            if a.v:
                show(results[-1])
        if _conc:
            _conc.stop()
    else:
        for r in run_all(tasks, min(a.jobs, len(tasks)), t0 + (620 if a.tier == 'quick' else 6.5 * 3600),
                         20 if a.tier == 'quick' else None):
            results.append(r)
            if a.v:
                show(r)
    sys.exit(finish(pid, a.tier, seed, mod, results, evfile, t0))


def worker(conn):
    os.setpgid(0, 0)  # so that its helper processes end with it
    while True:
        t = conn.recv()
        if t is None:
            if _conc:
                _conc.stop()
            conn.close()
            os._exit(0)
        conn.send(task(t))


def killed(t, why):
    return dict(harness=t[2], config=t[3], paths=0, infeasible=0, concretised=0, concretised_runs=0, reached=0, validated=0,
                mismatches=[], violations=[], nonrepro=[], unknown=[], truncated=1, samples=[], notes=[why], tags={},
                stats=dict(solver_s=0, feas_queries=0, branches=0), functions={}, lost=True)


def run_all(tasks, n, end, grace=None):
    """workers that can be ended when a solver call does not return; such a configuration counts as not explored"""
    import signal
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')
    todo = list(enumerate(tasks))[::-1]
    live = {}
    known = [k for k in load_known() if k.get('property') == tasks[0][0] and k.get('status') == 'known']

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b,), daemon=False)
        p.start()
        b.close()
        live[a] = [p, None, 0]
        return a

    def give(c):
        if todo and time.time() < end:
            i, t = todo.pop()
            live[c][1:] = [t, time.time() + t[4]['budget_s'] + 60]
            c.send(t)
        else:
            live[c][1:] = [None, 0]
            try:
                c.send(None)
            except OSError:
                pass
            live[c][0].join(5)
            drop(c)

    def drop(c):
        p = live.pop(c)[0]
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.kill()
        p.join()
        c.close()
    for _ in range(n):
        give(start())
    while live:
        for c in wait(list(live), timeout=1):
            try:
                r = c.recv()
            except (EOFError, OSError):
                t = live[c][1]
                drop(c)
                yield killed(t, 'the worker ended (out of memory?)')
                if todo:
                    give(start())
                continue
            yield r
            if grace is not None and r['violations'] and not all(match_known(known, r, v) for v in r['violations']):
                end = min(end, time.time() + grace)  # the verdict stands, only look at what is close to its end
            give(c)
        now = time.time()
        for c in list(live):
            if live[c][1] is not None and (now > live[c][2] or now > end):
                t = live[c][1]
                drop(c)
                yield killed(t, 'solver call did not return in time')
                if todo and now < end:
                    give(start())
    for _, t in todo:
        yield killed(t, 'no time left')


def show(r):
    print(f"  {r['harness']} {r['config']}: paths={r['paths']} reached={r['reached']} conc={r['concretised']} "
          f"valid={r['validated']} unk={len(r['unknown'])} mism={len(r['mismatches'])} viol={len(r['violations'])} "
          f"nonrepro={len(r['nonrepro'])} trunc={r['truncated']} wall={r.get('wall', 0):.1f} "
          f"solver={r['stats']['solver_s']:.1f} q={r['stats']['feas_queries']} br={r['stats']['branches']}")
    for k in ('mismatches', 'unknown', 'nonrepro', 'notes'):
        for x in r[k][:4]:
            print('     ', k, str(x)[:700])
    for v in r['violations']:
        print('      VIOL', v['how'], v['labels'][:2])
    if r.get('crash'):
        print(r['crash'])


def finish(pid, tier, seed, mod, results, evfile, t0):
    known = [k for k in load_known() if k.get('property') == pid and k.get('status') == 'known']
    agg = dict(paths=0, reached=0, concretised=0, concretised_runs=0, validated=0, truncated=0, infeasible=0)
    st = {}
    funcs = {}
    for r in results:
        for k in agg:
            agg[k] += r[k]
        for k, v in r['stats'].items():
            st[k] = st.get(k, 0) + v
        for f, n in r['functions'].items():
            funcs[f] = funcs.get(f, 0) + n
    viol, knownhits = [], []
    for r in results:
        for v in r['violations']:
            kf = match_known(known, r, v)
            (knownhits if kf else viol).append((r, v, kf))
    nonrepro = [(r['harness'], r['config'], n) for r in results for n in r['nonrepro']]
    unknown = [(r['harness'], u) for r in results for u in r['unknown']]
    mism = [(r['harness'], str(r['config']), m) for r in results for m in r['mismatches']]
    crash = [r for r in results if r.get('crash')]
    vacuous = [hn for hn in {r['harness'] for r in results}
               if not any(r['reached'] for r in results if r['harness'] == hn)
               and not any(r['violations'] or r['concretised'] or r.get('crash') or r.get('lost') for r in results
                           if r['harness'] == hn)]
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2),
        violations=len(viol),
        coverage=dict(
            states=agg['paths'], transitions=int(st.get('branches', 0) + st.get('forced', 0)),
            traces_validated_against_impl=agg['validated'],
            samples=[s for r in results for s in r['samples']][:6] or
                    [dict(harness=r['harness'], config=r['config']) for r in results][:3],
            explanation='states = completed symbolic paths of the real functions; transitions = branch decisions decided '
                        'by the solver; traces = models of those paths replayed on the unmodified package with equal '
                        'observations',
            functions_encoded=sorted(funcs), function_activations=sum(funcs.values()),
            bounds=getattr(mod, 'BOUNDS', ''), outside=getattr(mod, 'OUTSIDE', ''), stubs=getattr(mod, 'STUBS', ''),
            harness_configs=len(results), assertions=int(st.get('asserts', 0)),
            assertions_proved_by_solver=int(st.get('proved', 0)),
            assertions_trivially_true=int(st.get('trivial', 0)),
            paths_reaching_assertions=agg['reached'],
            feasibility_queries=int(st.get('feas_queries', 0)), solver_s=round(st.get('solver_s', 0), 2),
            unknown_assertions=len(unknown), unknown_feasibility=int(st.get('unknown_feas', 0)),
            paths_concretised=agg['concretised'], concrete_runs_for_those=agg['concretised_runs'],
            truncated_paths=agg['truncated'], encoding_mismatches=[str(m)[:300] for m in mism][:5],
            cvc5_cross_checked={k: int(v) for k, v in st.items() if k.startswith('cross_') or k == 'cvc5_fallback'},
            known_findings=len(knownhits), nonreproducing=len(nonrepro), source_hash=source_hash(),
            notes=sorted({str(n)[:200] for r in results for n in r['notes']})[:10],
        ),
        assumptions=getattr(mod, 'ASSUMPTIONS', []) + [
            'numbers are exact reals (floating point rounding is only covered by the replayed traces)'],
    )
    with open(evfile, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for r, v, kf in knownhits:
        print(f'KNOWN-FINDING: property={pid} {kf["what"]}')
    for k in sorted({str(x) for x in unknown})[:5]:
        print('INCONCLUSIVE solver unknown:', k)
    if agg['concretised'] or agg['truncated'] or mism:
        print(f'INCONCLUSIVE paths: {agg["concretised"]} decided by concrete runs only, {agg["truncated"]} not explored, '
              f'{len(mism)} encoding mismatches')
        for n in ev['coverage']['notes'][:5] + [str(m)[:400] for m in mism][:3]:
            print('  ', n)
    for n in nonrepro[:3]:
        print('INCONCLUSIVE counterexample of the encoding that the real package does not reproduce:', str(n)[:600])
    code = 0
    if viol:
        code = 1
        seen = set()
        for r, v, _ in viol:
            job = dict(module=f'harness.{pid.lower()}', harness=r['harness'], config=r['config'], **v['data'])
            name = hashlib.sha1(json.dumps(job, sort_keys=True).encode()).hexdigest()[:10]
            p = os.path.join(EVID, f'replay_{pid}_{name}.json')
            with open(p, 'w') as f:
                json.dump(dict(property=pid, how=v['how'], fails=v['labels'], job=job), f, indent=1)
            key = (r['harness'], str(v['labels'][:1]))
            if key in seen:
                continue
            seen.add(key)
            print(f'{r["harness"]} {r["config"]}: {v["how"]}')
            for l in v['labels'][:3]:
                print('   fails on the real package:', l[0], '-', l[1])
            print(f'VIOLATION property={pid} replay={p}')
    elif crash:
        for r in crash[:2]:
            print('CHECK ERROR', r['harness'], r['config'], r['crash'])
        code = 3
    elif vacuous:
        print('VACUOUS harness (assertions never reached):', vacuous)
        code = 4
    print(f'{pid} {tier}: {"held" if code == 0 else "exit " + str(code)}; paths={agg["paths"]} '
          f'asserts={st.get("asserts", 0)} proved={st.get("proved", 0)} validated={agg["validated"]} '
          f'solver={st.get("solver_s", 0):.1f}s wall={time.time() - t0:.1f}s')
    return code


def match_known(known, r, v):
    for k in known:
        if k.get('harness') == r['harness'] and all(r['config'].get(x) == y for x, y in k.get('config', {}).items()) \
                and any(k.get('label', '') in l[0] and k.get('detail', '') in l[1] for l in v['labels']):
            return k
    return None


if __name__ == '__main__':
    main()
