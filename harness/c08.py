"""C08: parameter values are composed from initial value, mechanisms and shift."""
import numpy as np

from harness import lib
from harness.c02 import phase_bounds, reach
from harness.lib import UNIT_US, us

BOUNDS = ('every parameter equation, mechanism, shift and initial-value equation (uninterpreted functions, array or scalar '
          'only); up to 5 mechanisms with any neutral value; up to 4 phases and 6 measurements; shapes up to 2 lots, 2 '
          'chips, 3 devices (the parameter model alone: 3, 4, 11); every latent, condition, initial and time value')
STUBS = lib.MINIMISE_CONTRACT
OUTSIDE = 'parameter equations that use stress conditions directly (not supported by the package)'


def _idx(shape):
    return [(ix, int(np.ravel_multi_index(ix, shape))) for ix in np.ndindex(*shape)]


def composed(cx, shape, phases, neutral, cneutral, scalar=False, latent=True, meas=None, shift=True):
    """hard-failure mechanisms, whose value in each phase is exactly known, inside a simulation"""
    from gerabaldi.models import (DeviceMdl, DegPrmMdl, FailMechMdl, InitValMdl, CondShiftMdl, LatentVar, TestSpec,
                                  StrsSpec, MeasSpec, PhysTestEnv)
    from gerabaldi import simulate
    rv = {n: cx.rv(n) for n in ('a', 'c', 'i', 'j', 'p', 'q', 'r', 's', 'temp', 'volt')}
    own = ('temp', 'volt') if latent == 'clash' else 'pqrs' if latent == 4 else 'p' if latent else ''
    f1 = cx.func('f1', ['time', 'temp', 'a'])
    f2 = cx.func('f2', ['volt', 'time'])
    sh = cx.func('shift', ['temp', 'c'])
    iv = cx.func('initial', ['i', 'j'])
    g = cx.func('g', ['cond', 'm2', *own, 'init', 'm1'] if latent else ['m1', 'init', 'm2', 'cond'], scalar_only=scalar)
    kw = {n: LatentVar(rv[n]) for n in own}
    prm = DegPrmMdl({'m1': FailMechMdl(f1, unitary_val=neutral[0], a=LatentVar(rv['a'])),
                     'm2': FailMechMdl(f2, unitary_val=neutral[1], time_unit='s')},
                    init_val_mdl=InitValMdl(iv, i=LatentVar(rv['i']), j=LatentVar(rv['j'])),
                    cond_shift_mdl=CondShiftMdl(sh, unitary_val=cneutral, c=LatentVar(rv['c'])) if shift
                    else CondShiftMdl(unitary_val=cneutral), compute_eqn=g, **kw)
    steps, plan = [], []
    m = meas or shape[2]

    def measure(i):
        T = cx.real(f'M{i}')
        steps.append(MeasSpec({'prm': m}, {'temp': T, 'volt': cx.real('vm')}))
        return len(steps) - 1, T
    pre = measure('a')
    if m != shape[2]:  # somebody needs all the devices
        steps.append(MeasSpec({'prm': shape[2]}, {'temp': cx.real('M_all')}))
    for i in range(phases):
        td, n = us(cx, f'd{i}')
        T, V = cx.real(f'T{i}'), cx.real(f'V{i}')
        steps.append(StrsSpec({'temp': T, 'volt': V}, td))
        plan.append((T, V, n, measure(i), measure(f'{i}b')))
    rep = simulate(TestSpec(steps, num_chps=shape[1], num_lots=shape[0]), DeviceMdl({'prm': prm}), PhysTestEnv())

    def G(p, **k):
        return g(**k, **p)
    mshape = (shape[0], shape[1], m)
    for ix, _ in _idx(mshape):
        k = int(np.ravel_multi_index(ix, shape))
        init = iv(rv['i'].draw(k), rv['j'].draw(k))
        p = {n: rv[n].draw(k) for n in own}

        def shown(true, T):
            return G(init=true, cond=sh(T, rv['c'].draw(k)) if shift else cneutral, m1=neutral[0], m2=neutral[1], p=p)
        cx.eq(f'before stress {ix}', lib.vals(rep, 'prm', pre[0], mshape)[ix], shown(init, pre[1]))
        v1, v2 = neutral
        for i, (T, V, n, m1, m2) in enumerate(plan):
            if bool(v1 == neutral[0]):
                v1 = f1(n / UNIT_US['h'], T, rv['a'].draw(k))
            if bool(v2 == neutral[1]):
                v2 = f2(V, n / UNIT_US['s'])
            true = G(init=init, cond=cneutral, m1=v1, m2=v2, p=p)
            for st, Tm in (m1, m2):
                cx.eq(f'after phase {i} {ix} step {st}', lib.vals(rep, 'prm', st, mshape)[ix], shown(true, Tm))


def direct(cx, shape, scalar=False):
    """the parameter model's own methods with arbitrary stress times and mechanism values"""
    from gerabaldi.models import DegPrmMdl, DegMechMdl, InitValMdl, CondShiftMdl, LatentVar
    f1 = cx.func('f1', ['time', 'temp', 'a'])
    f2 = cx.func('f2', ['a', 'time'])
    sh = cx.func('shift', ['c', 'volt', 'temp'])
    g = cx.func('g', ['init', 'p', 'cond', 'm2', 'm1'], scalar_only=scalar)
    un = [cx.real('u1'), cx.real('u2'), cx.real('uc')]
    lv = LatentVar(deter_val=1)
    prm = DegPrmMdl({'m1': DegMechMdl(f1, unitary_val=un[0], a=lv, time_unit='h'),
                     'm2': DegMechMdl(f2, unitary_val=un[1], a=lv, time_unit='s')},
                    cond_shift_mdl=CondShiftMdl(sh, unitary_val=un[2], c=lv), compute_eqn=g, prm_name='prm', p=lv)
    A = {n: cx.arr(n, shape) for n in ('t1', 't2', 'temp', 'volt', 'init', 'a1', 'a2', 'c', 'p', 'pre1', 'pre2', 'curr')}
    for n in ('t1', 't2'):
        for ix, _ in _idx(shape):
            cx.assume((A[n][ix] > 0) & (A[n][ix] < 1e9))
    lat = {'cond': {'c': A['c']}, 'm1': {'a': A['a1']}, 'm2': {'a': A['a2']}, 'p': A['p']}
    val, mech = prm.calc_deg_vals(shape, {'m1': A['t1'], 'm2': A['t2']}, {'temp': A['temp'], 'volt': A['volt']}, A['init'],
                                  lat, {'m1': A['pre1'], 'm2': A['pre2']})
    shifted = prm.calc_cond_shifted_vals(shape, {'temp': A['temp'], 'volt': A['volt']}, A['curr'], lat)
    for ix, _ in _idx(shape):
        w1, w2 = f1(A['t1'][ix], A['temp'][ix], A['a1'][ix]), f2(A['a2'][ix], A['t2'][ix])
        cx.eq(f'mechanism 1 {ix}', mech['m1'][ix], w1)
        cx.eq(f'mechanism 2 {ix}', mech['m2'][ix], w2)
        cx.eq(f'true value {ix}', val[ix], g(A['init'][ix], A['p'][ix], un[2], w2, w1))
        cx.eq(f'shifted value {ix}', shifted[ix],
              g(A['curr'][ix], A['p'][ix], sh(A['c'][ix], A['volt'][ix], A['temp'][ix]), un[1], un[0]))
    cx.observe('v', [val, shifted])


def summed(cx, shape, phases, mechs):
    """default equation: the plain sum of initial value, every mechanism and the shift"""
    from gerabaldi.models import (DeviceMdl, DegPrmMdl, DegMechMdl, FailMechMdl, InitValMdl, CondShiftMdl, LatentVar,
                                  TestSpec, StrsSpec, MeasSpec, PhysTestEnv)
    from gerabaldi import simulate
    lib.stub_minimise(cx)
    rv = {n: cx.rv(n) for n in ('a', 'c', 'init')}
    w = cx.func('wear', ['time', 'temp', 'a'], mono='time', at0=0)
    ff = {m: cx.func('fail' + m, ['time', 'temp']) for m in mechs if m[0] == 'f'}
    sh = cx.func('shift', ['temp', 'c'])
    pool = {'w': lambda: DegMechMdl(w, time_unit='h', a=LatentVar(rv['a'])), 'none': lambda: DegMechMdl(),
            }

    def fail(m):
        return lambda: FailMechMdl(ff[m], time_unit='h')
    for m in ff:
        pool[m] = fail(m)
    prm = DegPrmMdl({m: pool[m]() for m in mechs}, init_val_mdl=InitValMdl(init_val=LatentVar(rv['init'])),
                    cond_shift_mdl=CondShiftMdl(sh, c=LatentVar(rv['c'])))
    steps, plan = [], []
    for i in range(phases):
        td, n = us(cx, f'd{i}', lo=UNIT_US['h'] // 100)
        T = cx.real(f'T{i}')
        steps += [StrsSpec({'temp': T}, td), MeasSpec({'prm': shape[2]}, {'temp': cx.real(f'M{i}')}),
                  MeasSpec({'prm': shape[2]}, {'temp': cx.real(f'N{i}')})]
        plan.append((T, n / UNIT_US['h']))
    rep = simulate(TestSpec(steps, num_chps=shape[1], num_lots=shape[0]), DeviceMdl({'prm': prm}), PhysTestEnv())
    for ix, k in _idx(shape):
        prev, fv = 0.0, dict.fromkeys(ff, 0)
        for i, (T, d) in enumerate(plan):
            v = [lib.vals(rep, 'prm', 3 * i + s, shape)[ix] - sh(cx.real(f'{x}{i}'), rv['c'].draw(k))
                 for s, x in ((1, 'M'), (2, 'N'))]
            cx.eq(f'shift only while measured, phase {i} {ix}', v[0], v[1])
            for m in ff:
                if bool(fv[m] == 0):
                    fv[m] = ff[m](d, T)
            deg = v[0] - rv['init'].draw(k) - sum(fv.values())
            if 'w' in mechs:
                phase_bounds(cx, f'phase {i} {ix}', deg, prev, w, d, reach('h'), dict(temp=T, a=rv['a'].draw(k)))
                prev = deg
            else:
                cx.eq(f'sum, phase {i} {ix}', deg, 0.0)


HARNESS = {
    'composed': dict(fn=composed, opts=dict(witnesses=10), configs=lambda t: [
        dict(shape=(1, 1, 1), phases=3, neutral=(0, 1), cneutral=0), dict(shape=(1, 1, 1), phases=2, neutral=(1, 1), cneutral=1),
        dict(shape=(2, 1, 1), phases=1, neutral=(0, 0), cneutral=0), dict(shape=(1, 2, 2), phases=1, neutral=(1, -2.5),
                                                                          cneutral=2),
        dict(shape=(1, 1, 2), phases=1, neutral=(0, 1), cneutral=1, scalar=True),
        dict(shape=(1, 1, 3), phases=1, neutral=(0, 1), cneutral=0, scalar=True, meas=2),
        dict(shape=(1, 2, 3), phases=1, neutral=(1, 0), cneutral=0, latent=False, meas=2),
        dict(shape=(1, 1, 3), phases=1, neutral=(1, 0), cneutral=0, meas=1),
        dict(shape=(1, 2, 1), phases=2, neutral=(1, 0), cneutral=1, shift=False), dict(shape=(1, 1, 2), phases=1, neutral=(0, 1),
                                                                                       cneutral=1, latent=4, scalar=True),
        dict(shape=(1, 2, 2), phases=1, neutral=(1, 0), cneutral=0, latent='clash', meas=1),
        dict(shape=(2, 1, 2), phases=1, neutral=(0, 1), cneutral=2.5, latent=4, shift=False, meas=1)]
        + ([dict(shape=(1, 1, 1), phases=4, neutral=(0, 1), cneutral=0), dict(shape=(1, 1, 2), phases=2, neutral=(1, 0),
                                                                             cneutral=1),
            dict(shape=(2, 2, 3), phases=1, neutral=(0, 1), cneutral=1, meas=2)] if t == 'thorough' else [])),
    'direct': dict(fn=direct, configs=lambda t: [dict(shape=(2, 1, 2)), dict(shape=(1, 2, 2), scalar=True),
                                                 dict(shape=(1, 3, 1)), dict(shape=(3, 4, 11)), dict(shape=(4, 2, 5), scalar=True)]),
    'summed': dict(fn=summed, opts=dict(witnesses=6), configs=lambda t: [
        dict(shape=(1, 1, 1), phases=2, mechs=('w', 'none')), dict(shape=(1, 1, 2), phases=1, mechs=('none', 'f', 'w')),
        dict(shape=(2, 1, 1), phases=2, mechs=('none',)), dict(shape=(1, 1, 2), phases=2, mechs=('f',)),
        dict(shape=(1, 1, 1), phases=1, mechs=('f', 'w', 'f2', 'f3', 'f4')), dict(shape=(1, 1, 1), phases=2, mechs=('f', 'f2', 'f3'))
        ]
        + ([dict(shape=(1, 2, 1), phases=2, mechs=('f', 'w', 'none'))] if t == 'thorough' else [])),
}
