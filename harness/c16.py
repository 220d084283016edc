"""C16: each mechanism uses the nearest time unit specified above it."""
import numpy as np

from harness import lib
from harness.c02 import phase_bounds, reach
from harness.lib import UNIT_US, us

BOUNDS = ('units given at mechanism, parameter and device level in every combination of present and absent; all ten unit '
          'names; up to 5 mechanisms and 5 parameters; 1 or 2 stress phases; every duration up to 10^15 us (wear-out '
          'mechanisms: at least 0.01 of their unit) and every law of physical time and temperature')
STUBS = lib.MINIMISE_CONTRACT
OUTSIDE = 'one parameter or mechanism model shared by several device models'
W = 2
UNITS = ('days', 'd', 'hours', 'h', 'seconds', 's', 'milliseconds', 'ms', 'microseconds', 'us')


def eff(*levels):
    return next((u for u in levels if u), 'h')


def fail(cx, units, phases=2):
    """units: (device, {prm: (unit, {mech: unit})}); one law of physical time, written in each mechanism's unit"""
    from gerabaldi.models import DeviceMdl, DegPrmMdl, FailMechMdl, TestSpec, StrsSpec, MeasSpec, PhysTestEnv
    from gerabaldi import simulate
    du, prms = units
    law = cx.func('law', ['us', 'temp'])

    def eqn(u):
        k = UNIT_US[u]
        return lambda time, temp: law(time * k, temp)
    mdl = {}
    for p, (pu, mechs) in prms.items():
        ms = {m: FailMechMdl(eqn(eff(mu, pu, du)), time_unit=mu) for m, mu in mechs.items()}
        w = {m: 10.0 ** (W * i) for i, m in enumerate(mechs)}
        args = ', '.join(mechs)
        ns = {'w': w}
        exec(f'def g(init, cond, {args}):\n    return init + cond + ' + ' + '.join(f'w["{m}"] * {m}' for m in mechs), ns)
        mdl[p] = DegPrmMdl(ms, compute_eqn=ns['g'], time_unit=pu)
    dev = DeviceMdl(mdl, time_unit=du)
    steps, plan = [], []
    for i in range(phases):
        td, n = us(cx, f'd{i}')
        T = cx.real(f'T{i}')
        steps += [StrsSpec({'temp': T}, td), MeasSpec({p: 1 for p in prms}, {'temp': T})]
        plan.append((T, n))
    rep = simulate(TestSpec(steps), dev, PhysTestEnv())
    for p, (pu, mechs) in prms.items():
        v = 0
        for i, (T, h) in enumerate(plan):
            if bool(v == 0):
                v = law(h, T)
            cx.eq(f'{p} after phase {i}', lib.vals(rep, p, 2 * i + 1, (1, 1, 1))[0, 0, 0],
                  v * sum(10.0 ** (W * j) for j in range(len(mechs))), tol=1e-6)


def wear(cx, du, pu, mu, phases=2):
    from gerabaldi.models import DeviceMdl, DegPrmMdl, DegMechMdl, TestSpec, StrsSpec, MeasSpec, PhysTestEnv
    from gerabaldi import simulate
    lib.stub_minimise(cx)
    u = eff(mu, pu, du)
    f = cx.func('wear', ['time', 'temp'], mono='time', at0=0)
    dev = DeviceMdl(DegPrmMdl(DegMechMdl(f, mdl_name='m', time_unit=mu), prm_name='p', time_unit=pu), time_unit=du)
    steps, plan = [], []
    for i in range(phases):
        td, n = us(cx, f'd{i}', lo=max(1, UNIT_US[u] // 100))
        T = cx.real(f'T{i}')
        steps += [StrsSpec({'temp': T}, td), MeasSpec({'p': 1}, {'temp': T})]
        plan.append((T, n / UNIT_US[u]))
    rep = simulate(TestSpec(steps), dev, PhysTestEnv())
    prev = 0.0
    for i, (T, d) in enumerate(plan):
        v = lib.vals(rep, 'p', 2 * i + 1, (1, 1, 1))[0, 0, 0]
        phase_bounds(cx, f'phase {i}', v, prev, f, d, reach(u), dict(temp=T))
        prev = v


def cfg_fail(t):
    out = []
    for i, (m, p, d) in enumerate([(m, p, d) for m in (None, 's', 'd') for p in (None, 'ms', 'h') for d in (None, 'us')]):
        out.append(dict(units=(d, {'p': (p, {'m': m})})))
    out += [dict(units=(None, {'p': (None, {'m': u})}), phases=1) for u in UNITS]
    out += [dict(units=(None, {'p': (u, {'m': None})}), phases=1) for u in UNITS]
    out += [dict(units=(u, {'p': (None, {'m': None})}), phases=1) for u in UNITS]
    out += [dict(units=('s', {'p': (None, {'m': 'h', 'k': None, 'j': 'd'}), 'q': ('d', {'m': None, 'k': 'ms'})}), phases=1),
            dict(units=(None, {'p': ('ms', {'m': None, 'k': 's'}), 'q': (None, {'m': None}), 'r': ('us', {'m': 'days'})})),
            dict(units=('d', {'q': (None, {'m': None, 'k': None}), 'p': ('hours', {'k': None, 'm': 'us'})})),
            dict(units=('s', {'p': ('d', {'m': 'h', 'k': None, 'j': 'us', 'h': 's', 'i': 'ms'})}), phases=1),
            dict(units=('s', {p: (None, {'m': None, 'k': None}) for p in 'pqrtu'}), phases=1),
            dict(units=(None, {'p': ('d', {m: None for m in 'mkjhi'}), 'q': (None, {m: None for m in 'mk'})}), phases=1)]
    return out


HARNESS = {
    'fail': dict(fn=fail, opts=dict(witnesses=4), configs=cfg_fail),
    'wear': dict(fn=wear, opts=dict(witnesses=6), configs=lambda t: [
        dict(du=d, pu=p, mu=m) for d, p, m in ((None, None, None), ('s', None, None), ('s', 'd', None), ('h', 'ms', 'd'),
                                               (None, 'us', None), (None, None, 'ms'), ('days', None, 'microseconds'))]
        + ([dict(du=d, pu=p, mu=m, phases=3) for d, p, m in ((None, None, 's'), ('us', None, None), (None, 'd', None))]
           if t == 'thorough' else [])),
}
