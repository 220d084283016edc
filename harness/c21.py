"""C21: prebuilt environments and models behave as documented for all conditions."""
import numpy as np
import pandas as pd

from harness import lib
from harness.c09 import want
from harness.lib import us

BOUNDS = ('every target, true value and condition; every standard normal draw from -8 to 8; shapes up to 3 lots, chips and '
          'devices, and 4, 5, 11; magnitudes of 0 or 10^-4 to 10^3 V and 10^-2 to 10^4 degrees at the instruments; every NBTI input, '
          'also vectors of 3 and one or two simulated stress phases')
STUBS = ('numpy generators give location + scale times standard draws that are inputs of the harness, in replays too; exp '
         'and ** with symbolic exponents are uninterpreted functions with monotonicity facts (same arguments, same value)')
OUTSIDE = 'standard draws beyond 8 sigma; which neighbour a rounding tie takes'

SPREAD = {'vdd': dict(batch=0.0, chp=0.0005, dev=0.0003), 'temp': dict(batch=0.5, chp=0.2, dev=0.05)}
METER = {'vdd': (0.0, 0.0002, 3, (0, 12), (1e-4, 1e3)), 'temp': (-273.15, 0.2, 2, (-40, 180), (1e-2, 1e4))}


def taken(cx, log, n, fn):
    """run fn; returns its result and the n standard draws it took (zeros if it took none)"""
    at = len(log)
    r = fn()
    new = log[at:]
    return r, new


def spreads(cx, cond, shape, zero_ok=False):
    """each layer shifts by its documented spread, once per batch, chip and device"""
    from gerabaldi.cookbook import volt_and_temp_env
    log = cx.draws()
    m = volt_and_temp_env().vrtn_mdl(cond)
    s = SPREAD[cond]
    L, Cc, D = shape
    base = cx.real('base')
    cx.check('an offset model', m.vrtn_type == 'offset')
    for k in range(2):
        got, z = taken(cx, log, 1, lambda: m.gen_batch_vrtn(base))
        got = np.ravel(np.asarray(got, dtype=object))
        cx.check('one value per batch', len(got) == 1)
        if s['batch']:
            if cx.check('one draw per batch', len(z) == 1):
                cx.eq('batch shift', got[0], base + s['batch'] * z[0])
        else:
            cx.eq('no batch shift', got[0], base)
        got, z = taken(cx, log, L * Cc, lambda: m.gen_chp_vrtns(base, Cc, L))
        if cx.check('one draw per chip', len(z) == L * Cc and np.shape(got) == (L, Cc)):
            for i, ix in enumerate(np.ndindex(L, Cc)):
                cx.eq(f'shift of chip {ix}', got[ix], base + s['chp'] * z[i])
        chips = cx.arr(f'chips{k}', (L, Cc))
        got, z = taken(cx, log, L * Cc * D, lambda: m.gen_dev_vrtns(chips, D))
        if cx.check('one draw per device', len(z) == L * Cc * D and np.shape(got) == (L, Cc, D)):
            for i, ix in enumerate(np.ndindex(L, Cc, D)):
                cx.eq(f'shift of device {ix}', got[ix], chips[ix[:2]] + s['dev'] * z[i])


def reach_of(cond):
    return 8 * sum(SPREAD[cond].values()) + 1e-9


def generated(cx, shape):
    """all layers together stay within the sum of the spreads; other conditions are exact"""
    from gerabaldi.cookbook import volt_and_temp_env
    cx.draws()
    env = volt_and_temp_env()
    base = {c: cx.real(c) for c in ('humidity', 'temp', 'vdd', 'other')}
    got = env.gen_env_cond_vals(base, {c: shape[2] for c in base}, num_chps=shape[1], num_lots=shape[0])
    for c, b in base.items():
        v = got[c][c]
        if not cx.check(f'{c}: one value per sensor', np.size(v) == shape[2]):
            continue
        for x in np.ravel(v):
            if c in SPREAD:
                cx.check(f'{c}: within the spreads', (x - b <= reach_of(c)) & (b - x <= reach_of(c)))
            else:
                cx.eq(f'{c}: exact', x, b)


def meter(cx, cond, kind, n):
    """error, then significant figures, then range"""
    from gerabaldi.cookbook import volt_and_temp_env
    log = cx.draws()
    m = volt_and_temp_env().meas_instm(cond)
    off, sd, figs, lims, top = METER[cond]
    xs = [cx.real(f'x{i}') for i in range(n)]
    if kind == 'number':
        arg = xs[0]
    elif kind == 'array':
        arg = cx._arr(np.array(xs, dtype=object))
    else:
        arg = pd.Series(xs, dtype=object if cx.symbolic else float)
    at = len(log)
    # the draws are the next inputs: state the expected values first, to split over their magnitudes once
    z = [cx.real(f'z{at + i}', -8, 8) for i in range(n)]
    w = [want(cx, x, off + sd * zi, figs, lims, top) for x, zi in zip(xs, z)]
    got = m.measure(arg)
    cx.check('one error draw per value', len(log) - at == n)
    got = [got] if kind == 'number' else list(got)
    if cx.check('as many values', len(got) == n):
        for i in range(n):
            cx.eq(f'reading {i}', got[i], w[i], tol=1e-9)
            cx.check(f'reading {i} within the range', (got[i] >= lims[0]) & (got[i] <= lims[1]))


def ideal(cx, shape, which):
    """what is applied and measured is exactly what was asked for"""
    from gerabaldi.cookbook import ideal_env, volt_and_temp_env
    from gerabaldi.models import DeviceMdl, DegPrmMdl, FailMechMdl, InitValMdl, LatentVar, TestSpec, StrsSpec, MeasSpec
    from gerabaldi.models import CondShiftMdl
    from gerabaldi import simulate
    cx.draws()
    env = ideal_env() if which == 'ideal' else volt_and_temp_env()
    names = ('temp', 'vdd') if which == 'ideal' else ('hum', 'load')
    g = cx.func('g', ['time', *names])
    h = cx.func('h', [*names])
    prm = DegPrmMdl(FailMechMdl(g, mdl_name='m'), prm_name='p', cond_shift_mdl=CondShiftMdl(h, mdl_name='c'))
    conds = [{c: cx.real(f'{c}{i}') for c in names} for i in range(2)]
    td, n = us(cx, 'd')
    test = TestSpec([StrsSpec(conds[0], td), MeasSpec({'p': shape[2], names[0]: 2, names[1]: 1}, conds[1])],
                    num_chps=shape[1], num_lots=shape[0])
    rep = simulate(test, DeviceMdl(prm), env)
    v = g(n / lib.HOUR, *conds[0].values()) + h(*conds[1].values())
    for ix in np.ndindex(*shape):
        cx.eq(f'parameter of device {ix}', lib.vals(rep, 'p', 1, shape)[ix], v)
    for c, k in zip(names, (2, 1)):
        r = lib.rows(rep, c, 1)
        if cx.check(f'{c}: one row per sensor', len(r) == k):
            for x in r:
                cx.eq(f'measured {c}', x[-1], conds[1][c])
    for i, kind in enumerate(('number', 'array', 'series')):
        x = [cx.real(f'x{i}{j}') for j in range(1 if kind == 'number' else 3)]
        arg = x[0] if kind == 'number' else cx._arr(np.array(x, dtype=object)) if kind == 'array' else \
            pd.Series(x, dtype=object if cx.symbolic else float)
        got = env.meas_instm('hum').measure(arg)
        for a, b in zip([got] if kind == 'number' else list(got), x):
            cx.eq(f'{kind} is measured exactly', a, b)


LATENTS = {'a_0': (0.006, 0.0002), 'e_aa': (0.05, 0.0002), 'alpha': (3.4, 0.004), 'n': (0.21, 0.005)}
K_EV = 8.617e-5


def law(cx, a_0, e_aa, temp, vdd, alpha, time, n):
    if cx.symbolic:
        C = cx.C
        return a_0 * C.special('exp', e_aa / (K_EV * temp)) * C.power(vdd, alpha) * C.power(time, n)
    return a_0 * np.exp(e_aa / (K_EV * temp)) * vdd**alpha * time**n


def nbti_inputs(cx, i=''):
    return dict(a_0=cx.real(f'a_0{i}', 0, 1, nice=(0.001, 0.1)), e_aa=cx.real(f'e_aa{i}', -1, 1, nice=(0.01, 0.1)),
                temp=cx.real(f'temp{i}', 100, 1000, nice=(250, 500)), vdd=cx.real(f'vdd{i}', 0.01, 10, nice=(0.5, 2)),
                alpha=cx.real(f'alpha{i}', 0.1, 10, nice=(1.5, 4)), time=cx.real(f'time{i}', 0.001, 1e6, nice=(1, 1000)),
                n=cx.real(f'n{i}', 0.01, 2, nice=(0.1, 0.9)))


def nbti(cx, size):
    from gerabaldi.cookbook import jedec_nbti_mdl
    m = jedec_nbti_mdl()
    cx.check('is called the JEDEC NBTI model', 'NBTI' in m.name)
    ins = [nbti_inputs(cx, i if size else '') for i in range(size or 1)]
    cx.eq('neutral value', m.unitary, 0)
    if size:
        got = m.compute(**{k: cx._arr(np.array([d[k] for d in ins], dtype=object)) for k in ins[0]})
        for i, d in enumerate(ins):
            cx.eq(f'equation 5.3.1, element {i}', got[i], law(cx, **d), tol=1e-9)
    else:
        cx.eq('equation 5.3.1', m.compute(**ins[0]), law(cx, **ins[0]), tol=1e-9)


def nbti_latents(cx, shape):
    from gerabaldi.cookbook import jedec_nbti_mdl
    log = cx.draws()
    m = jedec_nbti_mdl()
    cx.check('latent variables', sorted(m.latent_vars) == sorted(LATENTS))
    for k, (mu, sd) in LATENTS.items():
        n = int(np.prod(shape))
        got, z = taken(cx, log, n, lambda: m.latent_var(k).gen_latent_vals(shape[2], shape[1], shape[0]))
        if cx.check(f'{k}: one draw per device', np.shape(got) == tuple(shape) and len(z) == n):
            for i, ix in enumerate(np.ndindex(*shape)):
                cx.eq(f'{k} of device {ix}', got[ix], mu + sd * z[i])


def nbti_run(cx, shape):
    """in a simulation: the equation with each device's own latent values, in hours"""
    from gerabaldi.cookbook import jedec_nbti_mdl, ideal_env
    from gerabaldi.models import DeviceMdl, DegPrmMdl, TestSpec, StrsSpec, MeasSpec
    from gerabaldi import simulate, gen_init_state
    lib.stub_minimise(cx)
    cx.draws()
    dev = DeviceMdl(DegPrmMdl(jedec_nbti_mdl(), prm_name='vth'))
    state = gen_init_state(dev, {'vth': shape[2]}, shape[1], shape[0])
    lat = state.latent_var_vals['vth']
    while 'a_0' not in lat:
        lat = [v for v in lat.values() if isinstance(v, dict) and (v.get('a_0') is not None or any(
            isinstance(x, dict) for x in v.values()))][0]
    temp, vdd = cx.real('temp', 100, 1000, nice=(250, 500)), cx.real('vdd', 0.01, 10, nice=(0.5, 2))
    td, n = us(cx, 'd', lo=lib.HOUR)
    test = TestSpec([StrsSpec({'temp': temp, 'vdd': vdd}, td), MeasSpec({'vth': shape[2]}, {'temp': temp, 'vdd': vdd})],
                    num_chps=shape[1], num_lots=shape[0])
    rep = simulate(test, dev, ideal_env(), state)
    for ix in np.ndindex(*shape):
        v = lib.vals(rep, 'vth', 1, shape)[ix]
        p = {k: lat[k][ix] for k in LATENTS}
        lo = law(cx, temp=temp, vdd=vdd, time=n / lib.HOUR, **p)
        hi = law(cx, temp=temp, vdd=vdd, time=n / lib.HOUR + 1.1e-3, **p)
        cx.le(f'at least the law, device {ix}', lo, v, tol=1e-6)
        cx.le(f'at most the law, device {ix}', v, hi, tol=1e-6)


HARNESS = {
    'spreads': dict(fn=spreads, configs=lambda t: [dict(cond=c, shape=s) for c in SPREAD for s in ((1, 1, 1), (2, 3, 2), (3, 1, 3), (4, 5, 11))]),
    'generated': dict(fn=generated, configs=lambda t: [dict(shape=s) for s in ((1, 1, 1), (2, 2, 3))]),
    'meter': dict(fn=meter, opts=dict(witnesses=8), configs=lambda t: [
        dict(cond=c, kind=k, n=n) for c in METER for k, n in (('number', 1), ('array', 1), ('series', 1))]
        + ([dict(cond=c, kind='array', n=2) for c in METER] if t == 'thorough' else [])),
    'ideal': dict(fn=ideal, configs=lambda t: [dict(shape=s, which=w) for s in ((1, 1, 1), (2, 1, 3), (3, 4, 11)) for w in ('ideal', 'vt')]),
    'nbti': dict(fn=nbti, configs=lambda t: [dict(size=0), dict(size=3)]),
    'nbti latents': dict(fn=nbti_latents, configs=lambda t: [dict(shape=(1, 1, 1)), dict(shape=(2, 1, 3))]),
    'nbti run': dict(fn=nbti_run, configs=lambda t: [dict(shape=(1, 1, 1)), dict(shape=(1, 1, 2))]),
}
