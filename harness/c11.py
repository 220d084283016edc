"""C11: the test timeline is executed and reported completely and in order."""
import datetime

import numpy as np

from harness import lib
from harness.c10 import isnone
from harness.lib import us

BOUNDS = ('tests of up to 24 stress and measurement steps in listed orders (also repeated step objects, no steps of a kind, '
          'the same test run twice, or after its first steps were iterated over); every duration up to 10^15 us, every condition value, every starting elapsed time')
STUBS = lib.MINIMISE_CONTRACT


def td_of(cx, us_):
    if cx.symbolic and isinstance(us_, cx.C.Sym):
        return cx.C.SymTD(us_.e)
    return datetime.timedelta(microseconds=int(us_))


def timeline(cx, pattern, start=None, runs=1, looked=None):
    """pattern: s = stress, m = measurement, n = a measurement without conditions, S/M = a step object used again"""
    from gerabaldi.models import (DeviceMdl, DegPrmMdl, FailMechMdl, TestSpec, StrsSpec, MeasSpec, PhysTestEnv)
    from gerabaldi import simulate, gen_init_state
    # the value of the (hard-failure) mechanism shows which phase ran first
    ff = cx.func('fail', ['time', 'temp'])
    prm = DegPrmMdl(FailMechMdl(ff, mdl_name='m', time_unit='h'), prm_name='prm')
    dev = DeviceMdl(prm)
    steps, spec = [], []
    pool = {}
    for i, ch in enumerate(pattern):
        if ch in 'SM' and ch in pool:
            st, info = pool[ch]
        elif ch in 'sS':
            T, V = cx.real(f'T{i}'), cx.real(f'V{i}')
            n = cx.int(f'd{i}.us', 1, 10**15)
            info = ('stress', f'phase{i}', {'temp': T, 'volt': V} if i % 2 else {'volt': V, 'temp': T}, n)
            st = StrsSpec(info[2], cx.td(f'd{i}', 1, 10**15), f'phase{i}')
        elif ch == 'n':  # no conditions
            info = ('measure', f'meas{i}', {}, 0)
            st = MeasSpec({'prm': 1 + i % 2}, {}, f'meas{i}')
        else:
            T = cx.real(f'T{i}')
            info = ('measure', f'meas{i}', {'temp': T}, 0)
            st = MeasSpec({'prm': 1 + i % 2}, {'temp': T}, f'meas{i}')
        pool[ch] = (st, info)
        steps.append(st)
        spec.append(info)
    ts = TestSpec(steps, name='N', description='D')
    state, t0 = None, 0
    if start == 'td':
        t0 = cx.int('t0.us', 0, 10**15)
        state = gen_init_state(dev, {'prm': 2}, elapsed_time=cx.td('t0', 0, 10**15))
    elif start == 'hours':
        h = cx.int('t0h', 0, 10**6)
        t0 = h * (3600 * 10**6)
        state = gen_init_state(dev, {'prm': 2}, elapsed_time=h)
    elif start == 'none':
        state = gen_init_state(dev, {'prm': 2})
    for run in range(runs):
        if looked is not None:  # someone looked at the first steps of the test before it is run
            seen = []
            for st in ts:
                seen.append(st)
                if len(seen) == looked:
                    break
            cx.check('iterating the test gives its steps in order', len(seen) == min(looked, len(steps)) and
                     all(x is y for x, y in zip(seen, steps)))
        rep = simulate(ts, dev, PhysTestEnv(), state)
        s = rep.test_summary
        cx.check('report name', rep.test_name == 'N' and rep.test_description == 'D')
        if not cx.check('one summary row per step', len(s) == len(spec)):
            return
        t, fv = t0, 0
        names = {c for _, _, conds, _ in spec for c in conds}
        for i, (kind, name, conds, n) in enumerate(spec):
            row = {c: s[c].tolist()[i] for c in s.columns}
            cx.check(f'row {i} number', row['step number'] == i)
            cx.check(f'row {i} name', row['step name'] == name)
            cx.check(f'row {i} type', row['step type'] == kind)
            for c in names:
                if c in conds:
                    if cx.check(f'row {i} reports {c}', c in row and not isnone(row[c])):
                        cx.eq(f'row {i} condition {c}', row[c], conds[c])
                else:
                    cx.check(f'row {i} has no {c}', c not in row or isnone(row[c]))
            cx.eq(f'row {i} duration', row['duration'], td_of(cx, n))
            cx.eq(f'row {i} start', row['start time'], td_of(cx, t))
            if kind == 'stress':
                if bool(fv == 0):
                    fv = ff(n * 1.0 / (3600 * 10**6), conds['temp'])
                t = t + n
            cx.eq(f'row {i} end', row['end time'], td_of(cx, t))
            if kind == 'measure':
                ms = lib.rows(rep, 'prm', i)
                cx.check(f'step {i} measured', len(ms) > 0)
                for _, _, _, tm, v in ms:
                    cx.eq(f'measurement time of step {i}', tm, td_of(cx, t))
                    cx.eq(f'value at step {i} reflects the phases before it', v, fv)
        if state is not None:
            cx.eq('the initial state keeps its time', state.elapsed, td_of(cx, t0))
    cx.observe('end', rep.test_summary['end time'].tolist())


PAT = ['msm', 'smsm', 'mssm', 'mmsmm', 'MsMsM', 'SmSm', 'ss', 'm', 's', 'mSSm', 'nsn', 'smnn', 'nn', 'msmsmsmsmsmsmsmsmsmsmsms']
HARNESS = {
    'timeline': dict(fn=timeline, opts=dict(witnesses=8), configs=lambda t: [dict(pattern=p) for p in PAT]
                     + [dict(pattern='msm', start=s) for s in ('td', 'hours', 'none')]
                     + [dict(pattern='smsm', start='td', runs=2), dict(pattern='msm', runs=2),
                        dict(pattern='msm', looked=1), dict(pattern='smsm', looked=2, runs=2), dict(pattern='msm', looked=9)]
                     + ([dict(pattern='mSmSmSm', start='hours', runs=2), dict(pattern='sMsMs', start='td'),
                         dict(pattern='msmsmsm')] if t == 'thorough' else [])),
}
