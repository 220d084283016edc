"""C03: a phase that cannot degrade a device leaves its accumulated wear unchanged."""
import numpy as np

from harness import c19, lib
from harness.c02 import phase_bounds, reach
from harness.lib import UNIT_US, us

BOUNDS = ('up to 4 phases, degrading or idle for each device separately (threshold, floor or saturation of the mechanism); '
          'shapes up to 2 lots, chips, devices; every threshold, condition, duration up to 10^15 us, latent and initial '
          'value; additive and multiplicative neutral values; '
          'mechanisms that raise and that lower their value')
STUBS = lib.MINIMISE_CONTRACT
OUTSIDE = 'degradation that is possible but needs more than 10^9 h under the new conditions'


def idle(cx, shape, unit, phases, neutral=0, kind='threshold', scalar=False, sgn=1):
    from gerabaldi.models import DeviceMdl, DegPrmMdl, DegMechMdl, InitValMdl, LatentVar
    from gerabaldi.models import TestSpec, StrsSpec, MeasSpec, PhysTestEnv
    from gerabaldi import simulate
    lib.stub_minimise(cx)
    f = cx.func('wear', ['time', 'temp', 'a'], mono='time', at0=0)
    a, thr, init = cx.rv('a'), cx.rv('thr'), cx.rv('init')

    def eqn(time, temp, a, thr):
        if scalar:
            if temp > thr:
                return sgn * f(time, temp, a) + neutral
            return neutral
        if kind == 'floor':  # the mechanism cannot fall below its neutral value
            return cx.where(temp > thr, sgn * f(time, temp, a), 0.0 * time) + neutral
        return cx.where(temp > thr, sgn * f(time, temp, a) + neutral, neutral)
    mech = DegMechMdl(eqn, mdl_name='mech', unitary_val=neutral, a=LatentVar(a), thr=LatentVar(thr), time_unit=unit)
    kw = {}
    if neutral:
        kw = dict(compute_eqn=lambda init, cond, mech: init + cond + (mech - neutral))
    prm = DegPrmMdl(mech, init_val_mdl=InitValMdl(init_val=LatentVar(init)), prm_name='prm', **kw)
    steps, spec = [], []
    for i in range(phases):
        td, n = us(cx, f'd{i}', lo=UNIT_US[unit] // 100 or 1)
        temp = cx.real(f'T{i}')
        steps += [StrsSpec({'temp': temp}, td), MeasSpec({'prm': shape[2]}, {'temp': temp})]
        spec.append((temp, n / UNIT_US[unit]))
    rep = simulate(TestSpec(steps, num_chps=shape[1], num_lots=shape[0]), DeviceMdl(prm), PhysTestEnv())
    out = [lib.vals(rep, 'prm', 2 * i + 1, shape) for i in range(phases)]
    cx.observe('first', [int(np.size(o)) for o in out])
    for ix in np.ndindex(*shape):
        k = int(np.ravel_multi_index(ix, shape))
        prev = 0.0
        for i, (temp, d) in enumerate(spec):
            v = (out[i][ix] - init.draw(k)) * sgn
            if bool(temp > thr.draw(k)):
                phase_bounds(cx, f'phase {i} device {k}', v, prev, f, d, reach(unit), dict(temp=temp, a=a.draw(k)))
            else:
                cx.eq(f'idle phase {i} keeps the wear of device {k}', v, prev)
            prev = v


def saturated(cx, shape, unit):
    """conditions under which the curve never reaches the accumulated wear"""
    from gerabaldi.models import DeviceMdl, DegPrmMdl, DegMechMdl, LatentVar
    from gerabaldi.models import TestSpec, StrsSpec, MeasSpec, PhysTestEnv
    from gerabaldi import simulate
    lib.stub_minimise(cx)
    f = cx.func('wear', ['time', 'temp', 'a'], mono='time', at0=0)
    a, cap = cx.rv('a'), cx.rv('cap', lo=0.0)

    def eqn(time, temp, hot, a, cap):
        v = f(time, temp, a)
        return cx.where(hot > 0, v, cx.where(v > cap, cap, v))
    mech = DegMechMdl(eqn, mdl_name='mech', a=LatentVar(a), cap=LatentVar(cap), time_unit=unit)
    prm = DegPrmMdl(mech, prm_name='prm')
    t0, n0 = us(cx, 'd0', lo=UNIT_US[unit])
    t1, _ = us(cx, 'd1', lo=UNIT_US[unit])
    t2, n2 = us(cx, 'd2', lo=UNIT_US[unit])
    temp = cx.real('T')
    m = MeasSpec({'prm': shape[2]}, {'temp': temp})
    ts = TestSpec([StrsSpec({'temp': temp, 'hot': 1}, t0), m, StrsSpec({'temp': temp, 'hot': 0}, t1), m,
                   StrsSpec({'temp': temp, 'hot': 1}, t2), m], num_chps=shape[1], num_lots=shape[0])
    rep = simulate(ts, DeviceMdl(prm), PhysTestEnv())
    for ix in np.ndindex(*shape):
        k = int(np.ravel_multi_index(ix, shape))
        v = [lib.vals(rep, 'prm', s, shape)[ix] for s in (1, 3, 5)]
        if bool(cap.draw(k) * 1.01 < v[0]):
            # the flat part of the residual must lie within the search interval
            cx.assume(f(10 * UNIT_US['h'] * 1.0 / UNIT_US[unit], temp, a.draw(k)) > cap.draw(k))
            cx.eq(f'wear above the cap is kept, device {k}', v[1], v[0])
            phase_bounds(cx, f'continues, device {k}', v[2], v[1], f, n2 / UNIT_US[unit], reach(unit),
                         dict(temp=temp, a=a.draw(k)))


HARNESS = {
    'idle': dict(fn=idle, opts=dict(witnesses=10), configs=lambda t: [
        dict(shape=(1, 1, 1), unit='h', phases=3), dict(shape=(1, 1, 2), unit='h', phases=2),
        dict(shape=(2, 1, 1), unit='s', phases=2), dict(shape=(1, 1, 1), unit='us', phases=2),
        dict(shape=(1, 1, 1), unit='d', phases=3, neutral=1), dict(shape=(1, 2, 1), unit='h', phases=2, kind='floor'),
        dict(shape=(1, 1, 1), unit='h', phases=2, scalar=True), dict(shape=(1, 1, 2), unit='h', phases=2, scalar=True),
        dict(shape=(1, 1, 1), unit='h', phases=3, sgn=-1), dict(shape=(1, 1, 2), unit='s', phases=2, neutral=1, sgn=-1)]
        + ([dict(shape=(1, 1, 1), unit='h', phases=4), dict(shape=(1, 1, 2), unit='ms', phases=3),
            dict(shape=(2, 1, 2), unit='h', phases=2), dict(shape=(1, 1, 3), unit='h', phases=2, neutral=1)]
           if t == 'thorough' else [])),
    'saturated': dict(fn=saturated, opts=dict(witnesses=6), configs=lambda t: [
        dict(shape=(1, 1, 1), unit='h'), dict(shape=(1, 1, 1), unit='s')]
        + ([dict(shape=(1, 1, 2), unit='h')] if t == 'thorough' else [])),
    'minimiser': dict(fn=c19.flat, configs=lambda t: [
        dict(iters=60, lo=1e-3, hi=1e10, log=True), dict(iters=60, lo=1e-3, hi=1e10, log=True, how='zero', shape=(1, 2, 2))]),
}
