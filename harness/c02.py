"""C02: wear accumulates consistently across changing stress phases."""
import numpy as np

from harness import c19, lib
from harness.lib import HOUR, UNIT_US, us

BOUNDS = ('1 to 6 stress phases; shapes up to 2 lots, chips and devices (one phase: 2, 3, 4); up to 2 mechanisms (of up to 8 arguments) of up to 2 parameters in '
          'different time units; every positive duration up to 10^15 us, every condition, latent, variation and initial '
          'value; the mechanism equation is any function increasing or decreasing in time from its neutral value at time 0 that '
          'reaches the accumulated value within 10^9 h')
STUBS = lib.MINIMISE_CONTRACT
OUTSIDE = 'accuracy of the numeric search beyond the harness "minimiser" (C19); equations that are not monotone in time'
ASSUMPTIONS = ['the equivalent time may be off by 0.1 % and by the lower search bound of 0.001 time units']

TOL, LOW = 1e-3, 1.1e-3


def phase_bounds(cx, tag, v, prev, f, d, hi, args, base=0.0):
    """v must be base + f continued for d from the time at which base + f reaches prev"""
    cx.assume(f(**{'time': hi, **args}) + base > prev)
    tau = lib.inverse(cx, f'tau_{tag}', f, prev - base, hi, **args)
    t = tau + d
    cx.le(f'{tag}: at least the curve continued for the full duration', f(**{'time': t * (1 - TOL), **args}) + base, v)
    cx.le(f'{tag}: at most the curve continued for the full duration', v,
          f(**{'time': t * (1 + TOL) + LOW, **args}) + base)


def reach(unit):
    return 1e9 * HOUR / UNIT_US[unit or 'h']


def single(cx, shape, unit, conds, varied=False, preset=False, sgn=1, neutral=0, later=False, wide=False):
    """one mechanism; the same letter in `conds` means the same conditions"""
    from gerabaldi.models import DeviceMdl, DegPrmMdl, DegMechMdl, InitValMdl, LatentVar, EnvVrtnMdl
    from gerabaldi.models import TestSpec, StrsSpec, MeasSpec, PhysTestEnv
    from gerabaldi import simulate, gen_init_state
    lib.stub_minimise(cx)
    more, conds2 = (('b', 'c', 'e', 'g'), ('volt', 'hum')) if wide else ((), ())  # latents and conditions
    f = cx.func('wear', ['time', 'temp', 'a', *more, *conds2], mono='time', at0=0)
    a = cx.rv('a')
    rvs = {n: cx.rv(n) for n in more}
    init = cx.rv('init')

    def eqn(time, temp, a):
        return neutral + sgn * f(time, temp, a)
    mech = DegMechMdl(f if sgn == 1 and not neutral else eqn, mdl_name='mech', unitary_val=neutral, a=LatentVar(a),
                      time_unit=unit, **{n: LatentVar(r) for n, r in rvs.items()})
    kw = dict(compute_eqn=lambda init, cond, mech: init + cond + (mech - neutral)) if neutral else {}
    prm = DegPrmMdl(mech, init_val_mdl=InitValMdl(init_val=LatentVar(init)), prm_name='prm', **kw)
    dev = DeviceMdl(prm)
    steps, spec = [], []
    steps.append(MeasSpec({'prm': shape[2]}, {'temp': cx.real('Tm')}))
    for i, c in enumerate(conds):
        td, n = us(cx, f'd{i}', lo=UNIT_US[unit or 'h'] // 100 or 1)
        temp = cx.real(f'T_{c}')
        steps.append(StrsSpec({'temp': temp, **{n: cx.real(f'{n}{i}') for n in conds2}}, td))
        steps.append(MeasSpec({'prm': shape[2]}, {'temp': cx.real('Tm')}))
        spec.append((temp, n / UNIT_US[unit or 'h']))
    e = cx.rv('env')
    env = PhysTestEnv({'temp': EnvVrtnMdl(dev_vrtn_mdl=e)}) if varied else PhysTestEnv()
    state, start = None, None
    if preset:
        state = gen_init_state(dev, {'prm': shape[2]}, shape[1], shape[0])
        start = cx.arr('worn', shape, lo=0)
        state.curr_deg_mech_vals['prm']['mech'] = neutral + sgn * start
        state.curr_prm_vals['prm'] = state.curr_prm_vals['prm'] + sgn * start
        if later:
            state.elapsed = cx.td('t0', 0, 10**15)
    rep = simulate(TestSpec(steps, num_chps=shape[1], num_lots=shape[0]), dev, env, state)
    cx.observe('first', lib.vals(rep, 'prm', 0, shape).ravel().tolist())
    n_dev = int(np.prod(shape))
    for ix in np.ndindex(*shape):
        k = int(np.ravel_multi_index(ix, shape))
        v0 = init.draw(k)
        prev = start[ix] if preset else 0.0
        for i, (temp, d) in enumerate(spec):
            t = temp + e.draw(i * n_dev + k) if varied else temp
            v = (lib.vals(rep, 'prm', 2 * i + 2, shape)[ix] - v0) * sgn
            phase_bounds(cx, f'phase {i} device {k}', v, prev, f, d, reach(unit), dict(
                temp=t, a=a.draw(k), **{n: r.draw(k) for n, r in rvs.items()}, **{n: cx.real(f'{n}{i}') for n in conds2}))
            prev = v


def multi(cx, conds, units, counts):
    """two parameters with two mechanisms each, in different time units; one mechanism of each is observed"""
    from gerabaldi.models import DeviceMdl, DegPrmMdl, DegMechMdl, LatentVar
    from gerabaldi.models import TestSpec, StrsSpec, MeasSpec, PhysTestEnv
    from gerabaldi import simulate
    lib.stub_minimise(cx)
    fs = {m: cx.func(f'w{m}', ['time', 'temp', f'k{m}'], mono='time', at0=0) for m in 'ABCD'}
    rv = {m: cx.rv(f'k{m}') for m in 'ABCD'}

    def mech(m, u):
        return DegMechMdl(fs[m], time_unit=u, **{f'k{m}': LatentVar(rv[m])})
    p1 = DegPrmMdl({'A': mech('A', units[0]), 'B': mech('B', units[1])},
                   compute_eqn=lambda init, cond, A, B: init + cond + A)
    p2 = DegPrmMdl({'C': mech('C', units[2]), 'D': mech('D', units[3])},
                   compute_eqn=lambda init, cond, C, D: init + cond + D)
    dev = DeviceMdl({'p1': p1, 'p2': p2})
    steps, spec = [], []
    for i, c in enumerate(conds):
        td, n = us(cx, f'd{i}', lo=HOUR)
        temp = cx.real(f'T_{c}')
        steps += [StrsSpec({'temp': temp}, td), MeasSpec({'p1': counts[0], 'p2': counts[1]}, {'temp': temp})]
        spec.append((temp, n))
    rep = simulate(TestSpec(steps), dev, PhysTestEnv())
    for p, m, u, cnt in (('p1', 'A', units[0], counts[0]), ('p2', 'D', units[3], counts[1])):
        for k in range(cnt):
            prev = 0.0
            for i, (temp, n) in enumerate(spec):
                v = lib.vals(rep, p, 2 * i + 1, (1, 1, cnt))[0, 0, k]
                phase_bounds(cx, f'{p} phase {i} device {k}', v, prev, fs[m], n / UNIT_US[u], reach(u),
                             {'temp': temp, f'k{m}': rv[m].draw(k)})
                prev = v


def cfg_single(tier):
    base = [((1, 1, 1), 'h', 'A'), ((1, 1, 1), 's', 'AB'), ((1, 1, 1), None, 'AA'), ((1, 1, 1), 'd', 'ABA'),
            ((2, 1, 1), 'h', 'AB'), ((1, 2, 1), 'ms', 'AB'), ((1, 1, 2), 'h', 'AB'), ((1, 1, 1), 'us', 'AAA')]
    out = [dict(shape=s, unit=u, conds=c) for s, u, c in base]
    out += [dict(shape=(1, 1, 2), unit='h', conds='AB', varied=True),
            dict(shape=(1, 2, 1), unit='h', conds='AA', varied=True),
            dict(shape=(1, 1, 2), unit='h', conds='A', preset=True), dict(shape=(1, 1, 1), unit='s', conds='AB', preset=True),
            dict(shape=(1, 1, 1), unit='h', conds='ABA', sgn=-1), dict(shape=(1, 1, 2), unit='s', conds='AB', sgn=-1, neutral=1),
            dict(shape=(1, 2, 1), unit='h', conds='AB', preset=True, sgn=-1),
            dict(shape=(1, 1, 2), unit='h', conds='AB', wide=True),
            dict(shape=(2, 3, 4), unit='h', conds='A'), dict(shape=(1, 1, 1), unit='h', conds='ABABAB')]
    if tier == 'thorough':
        out += [dict(shape=s, unit=u, conds=c) for s, u, c in
                [((1, 1, 1), 'h', 'ABC'), ((1, 1, 1), 'h', 'ABAB'), ((1, 1, 1), 's', 'ABCA'), ((2, 2, 1), 'h', 'AB'),
                 ((1, 2, 2), 'h', 'AA'), ((1, 1, 2), 'h', 'ABA'), ((1, 1, 3), 'd', 'AB')]]
        out += [dict(shape=(2, 1, 2), unit='h', conds='AB', varied=True), dict(shape=(2, 1, 1), unit='h', conds='AB', preset=True)]
    return out


HARNESS = {
    'single': dict(fn=single, configs=cfg_single),
    'multi': dict(fn=multi, opts=dict(witnesses=8), configs=lambda t: [
        dict(conds='AB', units=('h', 's', 'd', 'ms'), counts=(1, 1)), dict(conds='A', units=('d', 'h', 'ms', 'h'), counts=(1, 2))]
        + ([dict(conds='AB', units=('h', 's', 'd', 'ms'), counts=(2, 1))] if t == 'thorough' else [])),
    'minimiser': dict(fn=c19.solve, opts=dict(witnesses=12), configs=lambda t: [
        dict(iters=1), dict(iters=2), dict(iters=2, lo=-3.0, hi=10.0, log=True), dict(iters=3, precision=0.2)]),
}
