"""C30: parameters, mechanisms and conditions do not influence one another."""
import numpy as np

from harness import lib
from harness.c10 import table, isnone

BOUNDS = ('devices of up to 3 degrading and 2 derived parameters with up to 3 mechanisms, whose mechanisms and latent variables share '
          'names; tests of up to 2 stress phases and 3 measurement steps; up to 2 lots, 2 chips and 2 devices; parameters left out, '
          'not measured or listed in another order; every draw, condition, duration and equation (uninterpreted)')
STUBS = lib.MINIMISE_CONTRACT
OUTSIDE = 'device draws of a condition that several parameters use (they are taken from one stream)'


def order(d, rev):
    return dict(reversed(list(d.items()))) if rev else d


def device(cx, prms, rev=(), wear=False, unit=None):
    from gerabaldi.models import (DeviceMdl, DegPrmMdl, DegMechMdl, FailMechMdl, InitValMdl, CondShiftMdl, CircPrmMdl, LatentVar)
    f, g = cx.func('f', ['time', 'temp', 'k']), cx.func('g', ['volt', 'time', 'k'])
    w = cx.func('w', ['time', 'temp'], mono='time', at0=0)
    s = cx.func('s', ['c', 'temp'])
    mk = {
        'a': lambda: DegPrmMdl(
            order({'m': FailMechMdl(f, time_unit='s', **order({'k': LatentVar(cx.rv('a.m.k'))}, 0)),
                   'n': FailMechMdl(g, unitary_val=1, k=LatentVar(cx.rv('a.n.k'))),
                   'o': FailMechMdl(f, unitary_val=2, k=LatentVar(deter_val=cx.real('a.o.k')))}, 'mechs' in rev),
            init_val_mdl=InitValMdl(init_val=LatentVar(cx.rv('a.init'))),
            cond_shift_mdl=CondShiftMdl(s, c=LatentVar(cx.rv('a.c'))), time_unit='d'),
        'b': lambda: DegPrmMdl(
            order({'n': DegMechMdl(w, time_unit='h') if wear else FailMechMdl(g, time_unit='ms', k=LatentVar(cx.rv('b.n.k')))},
                  'mechs' in rev),
            init_val_mdl=InitValMdl(init_val=LatentVar(cx.rv('b.init'))), k=LatentVar(cx.rv('b.k')),
            compute_eqn=lambda init, cond, n, k: init + cond + n + k),
        'c': lambda: DegPrmMdl(
            order({'m': FailMechMdl(f, k=LatentVar(cx.rv('c.m.k'))), 'k': FailMechMdl(g, k=LatentVar(cx.rv('c.k.k')))}, 'mechs' in rev),
            init_val_mdl=InitValMdl(init_val=LatentVar(cx.rv('c.init'))), cond_shift_mdl=CondShiftMdl(s, c=LatentVar(cx.rv('c.c')))),
        'z': lambda: CircPrmMdl(cx.func('z', ['a', 'k', 'temp']), k=LatentVar(cx.rv('z.k'))),
        'y': lambda: CircPrmMdl(lambda b, temp: b - temp)}
    return DeviceMdl(order({p: mk[p]() for p in prms}, 'prms' in rev), time_unit=unit)


def run(cx, shape, prms, plan, meas, rev=(), wear=False, unit=None, err=(), dv=False):
    from gerabaldi.models import TestSpec, StrsSpec, MeasSpec, PhysTestEnv, EnvVrtnMdl, MeasInstrument
    from gerabaldi import simulate
    env = PhysTestEnv(order({'temp': EnvVrtnMdl(batch_vrtn_mdl=cx.rv('env.t.b'), chp_vrtn_mdl=cx.rv('env.t.c')),
                             'volt': EnvVrtnMdl(batch_vrtn_mdl=cx.rv('env.v.b'), dev_vrtn_mdl=cx.rv('env.v.d') if dv else None)}, 'env' in rev),
                      order({p: MeasInstrument(error=cx.rv('err.' + p)) for p in err}, 'env' in rev))
    steps = []
    for i, x in enumerate(plan):
        conds = order({'temp': cx.real(f'T{i}'), 'volt': cx.real(f'V{i}')}, 'conds' in rev)
        if x == 's':
            steps.append(StrsSpec(conds, cx.td(f'd{i}', 36 * 10**6, 10**15)))
        else:
            steps.append(MeasSpec(order({p: shape[2] for p in prms if p in meas}, 'meas' in rev), conds))
    return simulate(TestSpec(steps, shape[1], shape[0]), device(cx, prms, rev, wear, unit), env)


def by_place(rep):
    return {tuple(r[:5]): r[5:] for r in table(rep)}


def relation(cx, shape, prms, other, plan, meas=None, rev=(), wear=False, unit=None, err=(), dv=False):
    """the same device twice: with other parameters left out or not measured, or everything in another order"""
    lib.stub_minimise(cx)
    one = run(cx, shape, prms, plan, prms, wear=wear, unit=unit, err=err, dv=dv)
    two = run(cx, shape, other, plan, meas or other, rev=rev, wear=wear, unit=unit, err=err, dv=dv)
    n = int(np.prod(shape))
    r1, r2 = by_place(one), by_place(two)
    if not cx.check('every device of every parameter once', len(r1) == len(table(one)) == n * len(prms) * plan.count('m')
                    and len(r2) == len(table(two)) == n * len(meas or other) * plan.count('m')):
        return
    if not cx.check('the same devices', set(r2) <= set(r1)):
        return
    for k in r2:
        cx.eq(f'{k} time', r2[k][0], r1[k][0])
        cx.eq(f'{k} value', r2[k][1], r1[k][1], tol=1e-6)
    if not wear:
        cx.observe('v', [r2[k][1] for k in sorted(r2)])


ALL = ('a', 'b', 'c', 'z', 'y')
REV = ('prms', 'mechs', 'conds', 'meas', 'env')
HARNESS = {
    'relation': dict(fn=relation, opts=dict(witnesses=4), configs=lambda t: [
        dict(shape=s, prms=('a', 'b', 'z'), other=o, plan=p, err=('a', 'z')) for s, p in (((1, 1, 1), 'msm'), ((1, 2, 1), 'sm'), ((2, 1, 2), 'sm'))
        for o in (('a',), ('b',), ('a', 'z'))]
        + [dict(shape=(1, 1, 2), prms=ALL, other=ALL, plan='msm', rev=r, err=('a', 'y')) for r in [(x,) for x in REV] + [REV]]
        + [dict(shape=(1, 1, 1), prms=ALL, other=ALL, meas=m, plan='msm') for m in (('a',), ('z',), ('y', 'c'))]
        + [dict(shape=(1, 1, 1), prms=('c', 'b', 'y'), other=('c', 'b', 'y'), plan='smsm', rev=REV, wear=True),
           dict(shape=(1, 2, 1), prms=('b', 'c'), other=('b',), plan='sm', wear=True, unit='s'),
           dict(shape=(1, 1, 1), prms=('a', 'b', 'y'), other=('y', 'b'), plan='msm', wear=True),
           dict(shape=(1, 2, 1), prms=('b', 'a', 'z', 'y'), other=('a',), plan='sm', wear=True, dv=True, err=('a', 'b')),
           dict(shape=(1, 1, 2), prms=('a', 'b', 'z'), other=('z', 'a', 'b'), plan='msm', rev=('mechs', 'conds'), wear=True, dv=True),
           dict(shape=(1, 1, 1), prms=('c', 'a', 'b'), other=('b', 'a', 'c'), plan='smsm', unit='d')]
        + ([dict(shape=(2, 2, 2), prms=ALL, other=ALL, plan='msm', rev=REV, err=ALL),
            dict(shape=(1, 1, 2), prms=ALL, other=('y', 'b'), plan='smsm', wear=True),
            dict(shape=(1, 1, 2), prms=('a', 'b', 'z'), other=('a', 'z'), plan='smsm', unit='ms')] if t == 'thorough' else [])),
}
