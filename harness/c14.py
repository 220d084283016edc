"""C14: simulating or measuring never alters the models, the test or the initial state."""
import datetime
import types

import numpy as np

from harness import lib
from harness.c10 import table, isnone

BOUNDS = ('tests of up to 3 stress phases with measurements inserted anywhere; degrading, failing and derived parameters, '
          'condition shifts, environment offsets, instruments; up to 2 lots, 2 chips, 3 devices; every duration, condition, '
          'latent, and initial value; every wear-out equation (uninterpreted, growing in time)')
STUBS = lib.MINIMISE_CONTRACT
OUTSIDE = 'private attributes that a simulation adds to an object'

ATOM = (str, bytes, bool, type(None), type, types.FunctionType, types.BuiltinFunctionType, np.ufunc)


def number(cx, x):
    return isinstance(x, (int, float, np.number, datetime.timedelta)) or (
        cx.symbolic and isinstance(x, (cx.C.Sym, cx.C.SymBool, cx.C.SymTD)))


def snap(cx, x, memo=None):
    """a deep picture of an object: nested tuples of ('kind', ...)"""
    memo = {} if memo is None else memo
    if number(cx, x):
        return ('num', x)
    if isinstance(x, ATOM) or callable(x):
        return ('is', x)
    if id(x) in memo:
        return ('seen', memo[id(x)])
    memo[id(x)] = len(memo)
    if isinstance(x, np.ndarray):
        return ('arr', x.shape, [snap(cx, y, memo) for y in x.ravel().tolist()])
    if isinstance(x, dict):
        return ('dict', [(k, snap(cx, v, memo)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return ('list', [snap(cx, v, memo) for v in x])
    if not hasattr(x, '__dict__') or (hasattr(x, 'label') and hasattr(x, 'draw')):
        return ('is', x)
    return ('obj', type(x), x, [(k, snap(cx, v, memo)) for k, v in sorted(vars(x).items())])


def same(cx, label, a, b):
    if not cx.check(f'{label} keeps its kind', a[0] == b[0]):
        return
    if a[0] == 'num':
        cx.eq(f'{label} unchanged', b[1], a[1])
    elif a[0] in ('is', 'seen'):
        cx.check(f'{label} unchanged', a[1] is b[1] or a[1] == b[1])
    elif a[0] == 'arr':
        if cx.check(f'{label} keeps its shape', a[1] == b[1]):
            for x, y in zip(a[2], b[2]):
                same(cx, label, x, y)
    elif a[0] == 'list':
        if cx.check(f'{label} keeps its length', len(a[1]) == len(b[1])):
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                same(cx, f'{label}[{i}]', x, y)
    elif a[0] == 'dict':
        if cx.check(f'{label} keeps its keys', [k for k, _ in a[1]] == [k for k, _ in b[1]]):
            for (k, x), (_, y) in zip(a[1], b[1]):
                same(cx, f'{label}.{k}', x, y)
    else:
        cx.check(f'{label} is the same object', a[1] is b[1] and a[2] is b[2])
        before, after = dict(a[3]), dict(b[3])
        gone = [k for k in before if k not in after]
        new = [k for k in after if k not in before and not k.startswith('_')]
        if cx.check(f'{label} keeps its attributes', not gone and not new):
            for k in before:
                same(cx, f'{label}.{k}', before[k], after[k])


def world(cx, mech, env_kind):
    """a device and an environment without random variation between runs"""
    from gerabaldi.models import (DeviceMdl, DegPrmMdl, DegMechMdl, FailMechMdl, InitValMdl, CondShiftMdl, CircPrmMdl,
                                  LatentVar, PhysTestEnv, EnvVrtnMdl, MeasInstrument, Deterministic)
    w = cx.func('wear', ['time', 'temp', 'k'], mono='time', at0=0)
    ff = cx.func('fail', ['time', 'temp', 'volt'])
    k = cx.real('k', 0.5, 4)
    lv = LatentVar(deter_val=k)
    ma = {'w': lambda: DegMechMdl(w, k=lv, time_unit='h'), 'f': lambda: FailMechMdl(ff, time_unit='s')}
    prms = {'a': DegPrmMdl({m: ma[m]() for m in mech}, init_val_mdl=InitValMdl(init_val=LatentVar(deter_val=cx.real('ia'))),
                           cond_shift_mdl=CondShiftMdl(lambda temp, c: temp * c, c=LatentVar(deter_val=cx.real('c')))),
            'b': DegPrmMdl({'g': FailMechMdl(ff)}, init_val_mdl=InitValMdl(init_val=LatentVar(deter_val=cx.real('ib')))),
            'z': CircPrmMdl(lambda a, b, volt, q: a + 2 * b - volt + q, q=LatentVar(deter_val=cx.real('q')))}
    if env_kind == 'full':
        env = PhysTestEnv({'temp': EnvVrtnMdl(dev_vrtn_mdl=Deterministic(cx.real('et')),
                                              chp_vrtn_mdl=Deterministic(cx.real('ec')))},
                          {'a': MeasInstrument('ma', error=Deterministic(cx.real('err'))),
                           'b': MeasInstrument('mb', meas_lims=(-5.0, 7.5))})
    else:
        env = PhysTestEnv()
    return DeviceMdl(prms, time_unit='h'), env


def build(cx, plan):
    """plan: sequence of ('s', i) and ('m', request)"""
    from gerabaldi.models import StrsSpec, MeasSpec
    steps = []
    for j, (kind, x) in enumerate(plan):
        if kind == 's':
            steps.append(StrsSpec({'temp': cx.real(f'T{x}'), 'volt': cx.real(f'V{x}')},
                                  cx.td(f'd{x}', 36 * 10**6, 10**15), f'stress {x}'))
        else:
            steps.append(MeasSpec(dict(x), {'temp': cx.real('Tm'), 'volt': cx.real('Vm')}, f'm{j}'))
    return steps


def state_of(cx, dev, counts, chips, lots):
    """an initial state in which every device has its own initial and latent values"""
    from gerabaldi import gen_init_state
    st = gen_init_state(dev, dict(counts), chips, lots)
    for p in 'ab':
        v = cx.arr('init_' + p, st.init_prm_vals[p].shape)
        st.init_prm_vals[p] = v
        st.curr_prm_vals[p] = v.copy()
    st.latent_var_vals['a']['cond']['c'] = cx.arr('cc', st.init_prm_vals['a'].shape)
    st.latent_var_vals['z']['q'] = cx.arr('qq', st.latent_var_vals['z']['q'].shape)
    for m, d in st.latent_var_vals['a'].items():
        if isinstance(d, dict) and 'k' in d:
            d['k'] = cx.arr('kk', st.init_prm_vals['a'].shape, lo=0.5, hi=4)
    return st


def compare(cx, label, r1, r2):
    cx.check(f'{label}: same number of rows', len(r1) == len(r2))
    for i, (x, y) in enumerate(zip(r1, r2)):
        for a, b in zip(x[:5], y[:5]):
            cx.check(f'{label}: row {i} label', (isnone(a) and isnone(b)) or a == b)
        cx.eq(f'{label}: row {i} time', y[5], x[5])
        cx.eq(f'{label}: row {i} value', y[6], x[6])


def again(cx, plan, mech, shape, env_kind='full', init=None):
    """nothing changes during a run, and a second run of the same objects gives the same report"""
    from gerabaldi.models import TestSpec
    from gerabaldi import simulate
    lib.stub_minimise(cx)
    dev, env = world(cx, mech, env_kind)
    steps = build(cx, plan)
    spec = TestSpec(steps, shape[1], shape[0], 'N', 'D')
    st = state_of(cx, dev, init, shape[1], shape[0]) if init else None
    objs = [('test', spec), ('steps', steps), ('device', dev), ('environment', env)] + ([('state', st)] if st else [])
    before = [snap(cx, o) for _, o in objs]
    r1 = simulate(spec, dev, env, st)
    t1 = table(r1)
    s1 = [dict(zip(r1.test_summary.columns, row)) for row in zip(*[r1.test_summary[c].tolist()
                                                                 for c in r1.test_summary.columns])]
    for (n, o), b in zip(objs, before):
        same(cx, n, b, snap(cx, o))
    r2 = simulate(spec, dev, env, st)
    compare(cx, 'second run', t1, table(r2))
    cx.check('the first report is kept', len(table(r1)) == len(t1))
    s2 = [dict(zip(r2.test_summary.columns, row)) for row in zip(*[r2.test_summary[c].tolist()
                                                                 for c in r2.test_summary.columns])]
    cx.check('same summary', [list(x) for x in s1] == [list(x) for x in s2])
    for i, (x, y) in enumerate(zip(s1, s2)):
        for k in x:
            if isnone(x[k]):
                cx.check(f'summary {i} {k}', isnone(y[k]))
            else:
                cx.eq(f'summary {i} {k}', y[k], x[k])
    if mech == 'f':
        cx.observe('v', [x[6] for x in t1])


def inserted(cx, plan, keep, mech, shape, env_kind='none', init=None):
    """the test with only the steps in `keep` reports the same values as with the extra measurements"""
    from gerabaldi.models import TestSpec
    from gerabaldi import simulate
    lib.stub_minimise(cx)
    dev, env = world(cx, mech, env_kind)
    steps = build(cx, plan)
    st = state_of(cx, dev, init, shape[1], shape[0]) if init else None
    r1 = simulate(TestSpec([steps[i] for i in keep], shape[1], shape[0]), dev, env, st)
    r2 = simulate(TestSpec(steps, shape[1], shape[0]), dev, env, st)
    renum = {old: new for new, old in enumerate(keep)}
    t2 = [(r[0], renum[r[1]]) + tuple(r[2:]) for r in table(r2) if r[1] in renum]
    compare(cx, 'with more measurements', table(r1), t2)
    if mech == 'f':
        cx.observe('v', [x[6] for x in t2])


M1, M2, M3 = ('m', {'a': 2, 'b': 1}), ('m', {'z': 1, 'temp': 2}), ('m', {'a': 1, 'z': 2, 'b': 2})
MA = ('m', {'a': 1})
HARNESS = {
    'again': dict(fn=again, opts=dict(witnesses=6), configs=lambda t: [
        dict(plan=(M1, ('s', 0), M2, M1), mech='f', shape=(2, 1)),
        dict(plan=(('m', {'z': 2}),), mech='f', shape=(1, 2)),
        dict(plan=(('m', {'z': 1, 'a': 1}), ('s', 0)), mech='f', shape=(1, 1)),
        dict(plan=(('s', 0), ('m', {'volt': 2, 'z': 1})), mech='f', shape=(1, 1)),
        dict(plan=(M1, ('s', 0), M3, ('s', 1), M1), mech='f', shape=(1, 1)),
        dict(plan=(MA, ('s', 0), MA, ('s', 1), MA), mech='w', shape=(1, 1)),
        dict(plan=(M1, ('s', 0), M2, ('s', 1), M1), mech='f', shape=(1, 2), init={'a': 2, 'b': 3}),
        dict(plan=(('s', 0), MA, ('s', 0), M3), mech='w', shape=(1, 1), init={'a': 2, 'b': 2, 'z': 2}),
        dict(plan=(MA, ('s', 0), ('m', {'a': 3}), MA), mech='w', shape=(1, 1), init={'a': 3, 'b': 1}, env_kind='none'),
        dict(plan=(M3, M3), mech='wf', shape=(2, 2), init={'a': 3, 'b': 2, 'z': 2}, env_kind='none')]
        + ([dict(plan=(('s', 0), M1, ('s', 1), M3, ('s', 2), M1), mech='f', shape=(1, 1)),
            dict(plan=(('s', 0), MA, ('s', 1), MA, ('s', 2), MA), mech='w', shape=(1, 1)),
            dict(plan=(('s', 0), M3, ('s', 1), M2), mech='wf', shape=(1, 1), init={'a': 2, 'b': 2, 'z': 2})]
           if t == 'thorough' else [])),
    'inserted': dict(fn=inserted, opts=dict(witnesses=6), configs=lambda t: [
        dict(plan=(M1, ('s', 0), M3, M2, M1), keep=(0, 1, 4), mech='f', shape=(1, 2)),
        dict(plan=(M3, ('s', 0), M2, ('s', 1), M1, M3), keep=(1, 3, 4), mech='f', shape=(1, 1)),
        dict(plan=(MA, ('s', 0), MA, ('s', 1), MA), keep=(1, 3, 4), mech='w', shape=(1, 1)),
        dict(plan=(MA, ('s', 0), MA, M3, ('s', 1), MA), keep=(1, 4, 5), mech='w', shape=(1, 1), env_kind='full'),
        dict(plan=(MA, ('m', {'a': 2}), ('s', 0), MA, ('m', {'a': 3})), keep=(2, 4), mech='w', shape=(1, 1),
             init={'a': 3, 'b': 1}),
        dict(plan=(MA, ('m', {'a': 3}), ('s', 0), MA, ('m', {'a': 2})), keep=(1, 2, 4), mech='f', shape=(1, 2),
             init={'a': 3, 'b': 1}),
        dict(plan=(M1, M3, M2, ('s', 0), M3, M3), keep=(0, 3, 5), mech='f', shape=(2, 1), init={'a': 2, 'b': 2, 'z': 2}),
        dict(plan=(M2, ('m', {'z': 2}), ('s', 0), ('m', {'z': 1}), ('m', {'z': 3})), keep=(1, 2, 4), mech='f', shape=(1, 2),
             init={'a': 3, 'b': 3, 'z': 3})]
        + ([dict(plan=(MA, ('s', 0), M2, ('s', 1), M1, ('s', 2), M3), keep=(1, 3, 5, 6), mech='f', shape=(1, 1)),
            dict(plan=(MA, ('s', 0), MA, ('s', 1), MA, ('s', 2), MA), keep=(1, 3, 5, 6), mech='w', shape=(1, 1)),
            dict(plan=(M3, ('s', 0), M3, ('s', 1), M2), keep=(1, 3, 4), mech='wf', shape=(1, 1),
                 init={'a': 2, 'b': 2, 'z': 2})] if t == 'thorough' else [])),
}
