"""C04: a hard failure is permanent, and failure checks have no memory of past phases."""
import numpy as np

from harness import lib
from harness.lib import UNIT_US, us

BOUNDS = ('up to 4 phases; shapes up to 2 lots, 2 chips, 3 devices (up to 7 phases and 3, 4, 5 for devices that fail at once or never); the failure equation is any function of time, '
          'conditions and latent values (also to infinity); any neutral value among 0, 1, -2.5; every duration up to '
          '10^15 us; alone or next to a degradation mechanism')
STUBS = lib.MINIMISE_CONTRACT


def fail(cx, shape, unit, phases, neutral=0, kind='any', mixed=False, varied=False, prior=False):
    from gerabaldi.models import DeviceMdl, DegPrmMdl, DegMechMdl, FailMechMdl, InitValMdl, LatentVar, EnvVrtnMdl
    from gerabaldi.models import TestSpec, StrsSpec, MeasSpec, PhysTestEnv
    from gerabaldi import simulate, gen_init_state
    lib.stub_minimise(cx)
    f = cx.func('fail', ['time', 'temp', 'a'])
    a, thr, init, e = cx.rv('a'), cx.rv('thr'), cx.rv('init'), cx.rv('env')

    def eqn(time, temp, a, thr):
        v = f(time, temp, a)
        if kind == 'any':
            return v
        if kind == 'known':
            return neutral + (a - neutral) * temp
        if kind == 'inf':
            return cx.where(v > thr, np.inf, neutral)
        if kind == 'step':
            return cx.where(v > thr, thr, neutral)
        if v > thr:  # scalar only
            return thr
        return neutral
    mech = FailMechMdl(eqn, unitary_val=neutral, time_unit=unit, a=LatentVar(a), thr=LatentVar(thr))
    mechs = {'mech': mech}
    if mixed:
        mechs = {'deg': DegMechMdl(cx.func('w', ['time', 'temp'], mono='time', at0=0), time_unit='s'), 'mech': mech}
    if mixed:
        def comb(init, cond, deg, mech):
            return init + cond + (mech - neutral)
    else:
        def comb(init, cond, mech):
            return init + cond + (mech - neutral)
    prm = DegPrmMdl(mechs, init_val_mdl=InitValMdl(init_val=LatentVar(init)), prm_name='prm', compute_eqn=comb)
    dev = DeviceMdl(prm)
    if kind == 'known':  # many devices, of which every third never fails
        for k in range(int(np.prod(shape))):
            cx.assume(a.draw(k) >= neutral + 1 if k % 3 else a.draw(k) == neutral)
    steps, spec = [], []
    for i in range(phases):
        td, n = us(cx, f'd{i}', lo=UNIT_US[unit or 'h'])
        temp = cx.real(f'T{i}', *((1, 10) if kind == 'known' else ()))
        steps += [StrsSpec({'temp': temp}, td), MeasSpec({'prm': shape[2]}, {'temp': temp})]
        spec.append((temp, n / UNIT_US[unit or 'h']))
    env = PhysTestEnv({'temp': EnvVrtnMdl(dev_vrtn_mdl=e)}) if varied else PhysTestEnv()
    state = None
    n_dev = int(np.prod(shape))
    if prior:  # an initial state in which some devices may have failed before
        state = gen_init_state(dev, {'prm': shape[2]}, shape[1], shape[0])
        start = cx.arr('failed', shape)
        state.curr_deg_mech_vals['prm']['mech'] = start
    rep = simulate(TestSpec(steps, num_chps=shape[1], num_lots=shape[0]), dev, env, state)
    out = [lib.vals(rep, 'prm', 2 * i + 1, shape) for i in range(phases)]
    for ix in np.ndindex(*shape):
        k = int(np.ravel_multi_index(ix, shape))
        cur = start[ix] if prior else neutral
        for i, (temp, d) in enumerate(spec):
            t = temp + e.draw(i * n_dev + k) if varied else temp
            if bool(cur == neutral):
                cur = eqn(d, t, a.draw(k), thr.draw(k))
                if isinstance(cur, np.ndarray):
                    cur = cur[()]
            cx.eq(f'phase {i} device {k}', out[i][ix], init.draw(k) + (cur - neutral))
    cx.observe('vals', [o.ravel().tolist() for o in out])


HARNESS = {
    'fail': dict(fn=fail, opts=dict(witnesses=12), configs=lambda t: [
        dict(shape=(1, 1, 1), unit='h', phases=3), dict(shape=(1, 1, 2), unit='s', phases=2),
        dict(shape=(2, 1, 1), unit=None, phases=2, neutral=1), dict(shape=(1, 2, 1), unit='d', phases=2, kind='inf'),
        dict(shape=(1, 1, 1), unit='h', phases=3, kind='step', neutral=-2.5), dict(shape=(1, 1, 1), unit='us', phases=2),
        dict(shape=(1, 1, 2), unit='h', phases=2, kind='scalar'), dict(shape=(1, 1, 1), unit='h', phases=3, kind='inf'),
        dict(shape=(1, 1, 1), unit='h', phases=2, mixed=True), dict(shape=(1, 2, 1), unit='ms', phases=2, varied=True),
        dict(shape=(3, 4, 5), unit='h', phases=2, neutral=1, kind='known'), dict(shape=(1, 1, 2), unit='s', phases=7, kind='known'),
        dict(shape=(1, 1, 2), unit='h', phases=1, prior=True), dict(shape=(1, 1, 1), unit='h', phases=2, neutral=1, prior=True)]
        + ([dict(shape=(1, 1, 1), unit='h', phases=4), dict(shape=(1, 1, 3), unit='h', phases=2, kind='step'),
            dict(shape=(2, 1, 2), unit='h', phases=2), dict(shape=(1, 1, 2), unit='h', phases=3, mixed=True)]
           if t == 'thorough' else [])),
}
