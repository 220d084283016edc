"""C27: a supplied initial state is the device population that is simulated."""
import numpy as np

from harness import c02, lib

BOUNDS = ('states with 2 degrading and 1 derived parameter, up to 2 lots, 2 chips and 3 devices, more devices than measured '
          'or than another parameter, or fewer; every initial, current, mechanism and latent value of the state arbitrary (also already '
          'degraded and failed devices); 1 to 2 stress phases, 1 to 2 tests from the same state; gradual wear that goes on from the wear in the state for up to 3 phases; every duration, condition and '
          'starting time')
STUBS = lib.MINIMISE_CONTRACT
OUTSIDE = 'gradual wear of several mechanisms at once that goes on from the wear in the state (one mechanism: as in C02)'


def make(cx):
    from gerabaldi.models import (DeviceMdl, DegPrmMdl, FailMechMdl, InitValMdl, CondShiftMdl, CircPrmMdl, LatentVar)
    F = dict(f=cx.func('fail', ['time', 'temp', 'k']), h=cx.func('other', ['time', 'volt']),
             s=cx.func('shift', ['temp', 'c']), g=cx.func('value', ['init', 'cond', 'm', 'n', 'p']),
             z=cx.func('circ', ['a', 'b', 'volt', 'q']))
    neutral = {'m': 0, 'n': cx.real('neutral n')}
    drawn = {n: cx.rv('drawn ' + n) for n in ('k', 'c', 'p', 'ia', 'ib', 'q')}
    lv = {n: LatentVar(r) for n, r in drawn.items()}
    prms = {'a': DegPrmMdl({'m': FailMechMdl(F['f'], k=lv['k'], time_unit='s'),
                            'n': FailMechMdl(F['h'], unitary_val=neutral['n'], time_unit='h')},
                           init_val_mdl=InitValMdl(init_val=lv['ia']), cond_shift_mdl=CondShiftMdl(F['s'], c=lv['c']),
                           compute_eqn=F['g'], p=lv['p']),
            'z': CircPrmMdl(F['z'], q=lv['q']),
            'b': DegPrmMdl({'r': FailMechMdl(F['h'], time_unit='h')}, init_val_mdl=InitValMdl(init_val=lv['ib']))}
    return DeviceMdl(prms), F, neutral


def own_state(cx, dev, counts, chips, lots, start, build):
    """a state whose every value is its own symbol"""
    from gerabaldi import gen_init_state
    from gerabaldi.models import SimState
    sh = {p: (lots, chips, n) for p, n in counts.items()}
    init = {p: cx.arr('init ' + p, sh[p]) for p in 'ab'}
    curr = {p: cx.arr('curr ' + p, sh[p]) for p in 'ab'}
    mech = {'a': {m: cx.arr('mech ' + m, sh['a']) for m in 'mn'}, 'b': {'r': cx.arr('mech r', sh['b'])}}
    lat = {'a': {'cond': {'c': cx.arr('c', sh['a'])}, 'm': {'k': cx.arr('k', sh['a'])}, 'n': {}, 'p': cx.arr('p', sh['a'])},
           'b': {'cond': {}, 'r': {}}, 'z': {'q': cx.arr('q', sh['z'])}}
    if build == 'changed':  # generate a state and overwrite what is in it
        st = gen_init_state(dev, dict(counts), chips, lots)
        st.init_prm_vals, st.curr_prm_vals = dict(init), dict(curr)
        st.curr_deg_mech_vals, st.latent_var_vals = mech, lat
    else:
        st = SimState(init, mech, lat)
        st.curr_prm_vals = dict(curr)
    if start:
        st.elapsed = cx.td('t0', 0, 10**15)
    return st, init, curr, mech, lat


def population(cx, counts, plan, shape, start=False, runs=1, build='changed'):
    from gerabaldi.models import TestSpec, StrsSpec, MeasSpec, PhysTestEnv
    from gerabaldi import simulate
    lots, chips = shape
    dev, F, neutral = make(cx)
    st, init, curr, mech, lat = own_state(cx, dev, counts, chips, lots, start, build)
    t0 = cx.int('t0.us', 0, 10**15) if start else 0
    for run in range(runs):
        steps, us = [], {}
        for i, x in enumerate(plan):
            conds = {'temp': cx.real(f'T{run}{i}'), 'volt': cx.real(f'V{run}{i}')}
            if x == 's':
                steps.append(StrsSpec(conds, cx.td(f'd{run}{i}', 1, 10**15)))
                us[i] = cx.int(f'd{run}{i}.us', 1, 10**15)
            else:
                steps.append(MeasSpec(dict(x), conds))
        rep = simulate(TestSpec(steps, chips, lots), dev, PhysTestEnv(), st)
        val = {p: np.array(curr[p], dtype=object) for p in 'ab'}
        ms = {m: np.array(v, dtype=object) for m, v in {**mech['a'], **mech['b']}.items()}
        t = t0
        for i, x in enumerate(plan):
            T, V = cx.real(f'T{run}{i}'), cx.real(f'V{run}{i}')
            if x == 's':
                t = t + us[i]
                sec, hr = us[i] * 1.0 / 10**6, us[i] * 1.0 / lib.HOUR
                for ix in np.ndindex(lots, chips, counts['a']):
                    if bool(ms['m'][ix] == neutral['m']):
                        ms['m'][ix] = F['f'](sec, T, lat['a']['m']['k'][ix])
                    if bool(ms['n'][ix] == neutral['n']):
                        ms['n'][ix] = F['h'](hr, V)
                    val['a'][ix] = F['g'](init['a'][ix], 0, ms['m'][ix], ms['n'][ix], lat['a']['p'][ix])
                for ix in np.ndindex(lots, chips, counts['b']):
                    if bool(ms['r'][ix] == 0):
                        ms['r'][ix] = F['h'](hr, V)
                    val['b'][ix] = init['b'][ix] + ms['r'][ix]
                continue
            for p, n in x.items():
                rows = lib.rows(rep, p, i)
                n = min(n, counts['b']) if p == 'b' else n  # there are no more
                if not cx.check(f'run {run} step {i}: {n} of {p}', len(rows) == lots * chips * n):
                    return
                for ix, r in zip(np.ndindex(lots, chips, n), rows):
                    cx.eq(f'run {run} step {i}: time', r[3], td_of(cx, t))
                    if p == 'a':
                        w = F['g'](val['a'][ix], F['s'](T, lat['a']['cond']['c'][ix]), neutral['m'], neutral['n'],
                                   lat['a']['p'][ix])
                    elif p == 'b':
                        w = val['b'][ix]
                    else:
                        w = F['z'](val['a'][ix], val['b'][ix], V, lat['z']['q'][ix])
                    cx.eq(f'run {run} step {i}: {p} {ix}', r[4], w)


def td_of(cx, us_):
    from harness.c11 import td_of as f
    return f(cx, us_)


A1, A2 = ({'a': 2, 'b': 1}, 's', {'z': 1, 'a': 1}), ({'z': 2}, 's', {'a': 1}, 's', {'b': 2, 'z': 1})
HARNESS = {
    'wear': dict(fn=c02.single, configs=lambda t: [
        dict(shape=(1, 1, 2), unit='h', conds='A', preset=True), dict(shape=(2, 1, 1), unit='s', conds='AB', preset=True, later=True),
        dict(shape=(1, 1, 1), unit='h', conds='ABA', preset=True, sgn=-1, neutral=1),
        dict(shape=(1, 2, 1), unit='d', conds='AA', preset=True, varied=True, later=True)]),
    'population': dict(fn=population, opts=dict(witnesses=10), configs=lambda t: [
        dict(counts={'a': 2, 'z': 1, 'b': 1}, plan=A1, shape=(1, 1)),
        dict(counts={'a': 1, 'z': 1, 'b': 1}, plan=({'a': 1, 'b': 1, 'z': 1},), shape=(2, 2), build='new', start=True),
        dict(counts={'a': 2, 'z': 2, 'b': 2}, plan=({'z': 1}, {'a': 1, 'b': 2}), shape=(1, 2), runs=2, start=True),
        dict(counts={'a': 1, 'z': 1, 'b': 1}, plan=({'a': 1}, 's', {'a': 1, 'z': 1}, 's', {'b': 1, 'a': 1}), shape=(1, 1),
             start=True, build='new'),
        dict(counts={'a': 1, 'z': 1, 'b': 1}, plan=('s', {'z': 1}), shape=(1, 1), runs=2),
        dict(counts={'a': 3, 'z': 3, 'b': 3}, plan=({'a': 3}, {'a': 1, 'b': 3}, {'z': 2}), shape=(1, 1), start=True)]
        + [dict(counts={'a': 2, 'z': 1, 'b': 1}, plan=({'b': 2}, 's', {'b': 3, 'a': 2}), shape=s) for s in ((1, 1), (1, 2))]
        + ([dict(counts={'a': 2, 'z': 2, 'b': 2}, plan=A2, shape=(1, 1)),
            dict(counts={'a': 1, 'z': 1, 'b': 1}, plan=A1[1:], shape=(1, 2), runs=2, build='new')] if t == 'thorough' else [])),
}
