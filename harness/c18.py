"""C18: equations that cannot take arrays give the same results device by device."""
import datetime as dt

import numpy as np

from harness import lib
from harness.c10 import table
from harness.c14 import compare

BOUNDS = ('mechanism (wear-out and failure), shift and parameter equations, any subset of them scalar-only (uninterpreted '
          'functions that raise ValueError for arrays of more than one element, as a comparison in an if does, or TypeError, as the functions of math do); shapes up '
          'to 2 lots, 3 chips, 3 devices (the helper alone: 5, 4, 12, and 130 devices); 1 or 2 phases; every latent, condition and initial value and duration')
STUBS = lib.MINIMISE_CONTRACT
OUTSIDE = 'equations that raise something else than ValueError or TypeError for arrays; initial-value and derived-parameter equations'


def device(cx, scalar, wear, neutral=1, kind=True):
    from gerabaldi.models import DeviceMdl, DegPrmMdl, DegMechMdl, FailMechMdl, InitValMdl, CondShiftMdl, LatentVar
    rv = {n: cx.rv(n) for n in ('a', 'b', 'c', 'p', 'init')}

    def fn(tag, name, params, **k):
        return cx.func(name, params, scalar_only=tag in scalar and kind, **k)
    mechs = {'m1': FailMechMdl(fn('f', 'fail', ['temp', 'time', 'b']), time_unit='s', b=LatentVar(rv['b'])),
             'm2': FailMechMdl(fn('F', 'fail2', ['time', 'volt']), unitary_val=neutral)}
    if wear:
        mechs = {'m1': DegMechMdl(fn('w', 'wear', ['time', 'temp', 'a'], mono='time', at0=0), time_unit='h',
                                  a=LatentVar(rv['a']))}
    g = fn('g', 'value', ['cond', 'init'] + list(mechs) + ['p']) if not wear else None
    if wear and 'g' in scalar:
        def g(init, cond, m1, p):  # noqa: F811
            if init > 0:
                return init + cond + m1 + p
            return init + cond + m1 + p
    elif wear:
        def g(init, cond, m1, p):
            return init + cond + m1 + p
    prm = DegPrmMdl(mechs, init_val_mdl=InitValMdl(init_val=LatentVar(rv['init'])),
                    cond_shift_mdl=CondShiftMdl(fn('s', 'shift', ['c', 'temp']), c=LatentVar(rv['c'])), compute_eqn=g,
                    p=LatentVar(rv['p']))
    return DeviceMdl({'prm': prm})


def equal(cx, shape, scalar, phases=1, wear=False, meas=None, varied=False, neutral=1, kind=True):
    from gerabaldi.models import TestSpec, StrsSpec, MeasSpec, PhysTestEnv, EnvVrtnMdl
    from gerabaldi import simulate
    lib.stub_minimise(cx)
    reps = []
    for s in (scalar, ''):
        env = PhysTestEnv({'temp': EnvVrtnMdl(dev_vrtn_mdl=cx.rv('env'))}) if varied else PhysTestEnv()
        steps = [MeasSpec({'prm': meas or shape[2]}, {'temp': cx.real('Tm'), 'volt': cx.real('Vm')})]
        for i in range(phases):
            steps += [StrsSpec({'temp': cx.real(f'T{i}'), 'volt': cx.real(f'V{i}')}, cx.td(f'd{i}', 36 * 10**6, 10**15)),
                      MeasSpec({'prm': shape[2]}, {'temp': cx.real('Tm'), 'volt': cx.real('Vm')})]
        reps.append(simulate(TestSpec(steps, shape[1], shape[0]), device(cx, s, wear, np.float64(neutral) if neutral != 1 else 1, kind), env))
    compare(cx, 'device by device', table(reps[1]), table(reps[0]))
    if not wear:
        cx.observe('v', [r[6] for r in table(reps[0])])


def law(cx, shape, phases=1, kind=True):
    """everything scalar-only, against the equations themselves"""
    from gerabaldi.models import TestSpec, StrsSpec, MeasSpec, PhysTestEnv
    from gerabaldi import simulate
    dev = device(cx, 'fFsg', False, kind=kind)
    T, V, Tm = cx.real('T'), cx.real('V'), cx.real('Tm')
    n = cx.int('d.us', 1, 10**15)
    rep = simulate(TestSpec([StrsSpec({'temp': T, 'volt': V}, cx.td('d', 1, 10**15)),
                             MeasSpec({'prm': shape[2]}, {'temp': Tm, 'volt': V})], shape[1], shape[0]), dev, PhysTestEnv())
    f, F = cx.func('fail', ['temp', 'time', 'b']), cx.func('fail2', ['time', 'volt'])
    s, g = cx.func('shift', ['c', 'temp']), cx.func('value', ['cond', 'init', 'm1', 'm2', 'p'])
    got = lib.vals(rep, 'prm', 1, shape)
    for k, ix in enumerate(np.ndindex(*shape)):
        d = {x: cx.real(f'{x}.{k}') for x in ('b', 'c', 'p', 'init')}
        true = g(0, d['init'], f(T, n * 1.0 / 10**6, d['b']), F(n * 1.0 / lib.HOUR, V), d['p'])
        cx.eq(f'{ix}', got[ix], g(s(d['c'], Tm), true, 0, 1, d['p']))


def helper(cx, shape, kind):
    """the device-by-device evaluation itself: nested mappings, lists, numbers and tuples"""
    try:
        from gerabaldi.helpers import _loop_compute
    except ImportError:
        cx.check('no such helper', True)
        return
    x, y, z = cx.arr('x', shape), cx.arr('y', shape), cx.arr('z', shape)
    a, b, tup = cx.real('a'), 3, (1, 2)
    f = np.float64(0.1)
    seen = []

    def eqn(x, n, lst, a, b, tup, f):
        seen.append((x, n['y'], n['deep']['z'], lst, a, b, f, tup, sorted(n), sorted(n['deep'])))
        return x
    args = {'x': x, 'n': {'y': y, 'deep': {'z': z}, 'a': a}, 'lst': y.tolist(), 'a': a, 'b': b, 'tup': tup, 'f': f}
    out = _loop_compute(eqn, args, shape)
    if not cx.check('one call per device', len(seen) == int(np.prod(shape)) and out.shape == tuple(shape)):
        return
    for ix, s in zip(np.ndindex(*shape), seen):
        cx.eqs(f'{ix}', list(s[:7]), [x[ix], y[ix], z[ix], y[ix], a, b, f])
        cx.check(f'{ix}: passed on', s[7] == (1, 2) and s[8] == ['a', 'deep', 'y'] and s[9] == ['z'])
        cx.eq(f'{ix}: result', out[ix], x[ix])


HARNESS = {
    'equal': dict(fn=equal, opts=dict(witnesses=6), configs=lambda t: [
        dict(shape=(1, 1, 2), scalar='g'), dict(shape=(2, 1, 2), scalar='s'), dict(shape=(1, 2, 1), scalar='f'),
        dict(shape=(1, 2, 1), scalar='g', neutral=0.1),
        dict(shape=(1, 1, 3), scalar='fFsg', meas=2), dict(shape=(1, 3, 1), scalar='F', varied=True),
        dict(shape=(2, 1, 1), scalar='fF', phases=2), dict(shape=(1, 1, 2), scalar='gs', phases=2, varied=True, meas=1),
        dict(shape=(1, 1, 2), scalar='wg', wear=True), dict(shape=(1, 1, 2), scalar='w', wear=True, phases=2),
        dict(shape=(1, 2, 1), scalar='sw', wear=True, varied=True), dict(shape=(1, 1, 1), scalar='wgs', wear=True, phases=2),
        dict(shape=(1, 1, 2), scalar='sw', wear=True, phases=2, kind='type'), dict(shape=(1, 2, 1), scalar='fs', kind='type'),
        dict(shape=(1, 1, 2), scalar='Fg', phases=2, varied=True, meas=1, kind='type')]
        + ([dict(shape=(2, 1, 2), scalar='wsg', wear=True), dict(shape=(1, 1, 2), scalar='wsg', wear=True, phases=3),
            dict(shape=(2, 3, 2), scalar='fFsg')] if t == 'thorough' else [])),
    'law': dict(fn=law, opts=dict(witnesses=10), configs=lambda t: [dict(shape=s) for s in ((1, 1, 2), (2, 1, 2), (1, 3, 1), (1, 2, 70))]
                + [dict(shape=(2, 1, 2), kind='type')]),
    'helper': dict(fn=helper, configs=lambda t: [dict(shape=s, kind='x') for s in ((2, 3, 2), (1, 2, 3), (3, 1, 1), (5, 4, 12), (1, 1, 130))]),
}
