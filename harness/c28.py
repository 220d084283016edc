"""C28: an environment uses for every name exactly what was registered for it."""
import numpy as np

from harness import lib

BOUNDS = ('up to 3 registered variation models and 3 instruments in mapping and list form, in both orders, with names that contain each '
          'other or differ in case, the same name for a condition and a parameter, and one object registered under two names; up to 4 requested '
          'names; every draw, error and limit')

ALIKE = ('v', 'v_a', 'a', 'var')


def registered(cx, names, form, shared=False, reverse=False, late=False, req=None):
    from gerabaldi.models import (PhysTestEnv, EnvVrtnMdl, MeasInstrument, DeviceMdl, DegPrmMdl, DegMechMdl, InitValMdl, LatentVar,
                                  TestSpec, MeasSpec)
    from gerabaldi import simulate
    NAMES = req or ALIKE
    env_rv = {n: cx.rv('env ' + n) for n in names}
    err_rv = {n: cx.rv('err ' + n) for n in names}
    ev = {n: EnvVrtnMdl(batch_vrtn_mdl=r, name=n) for n, r in env_rv.items()}
    ins = {n: MeasInstrument(n, error=r) for n, r in err_rv.items()}
    if shared:  # the same instrument and model for all of them
        for n in names:
            ev[n], ins[n] = ev[names[0]], ins[names[0]]
            env_rv[n], err_rv[n] = env_rv[names[0]], err_rv[names[0]]
    if reverse:
        ev, ins = dict(reversed(ev.items())), dict(reversed(ins.items()))
    if form == 'list':
        ev, ins = list(ev.values()), list(ins.values())
    env = PhysTestEnv(ev, ins, 'E') if not late else PhysTestEnv(meas_instms=ins)
    cx.check('name of the environment', env.name == ('E' if not late else 'unspecified'))
    conds = {n: cx.real('target ' + n) for n in NAMES}
    init = cx.rv('init')
    dev = DeviceMdl({'prm': DegPrmMdl({'m': DegMechMdl()}, init_val_mdl=InitValMdl(init_val=LatentVar(init)))})
    rep = simulate(TestSpec([MeasSpec({**{n: 2 for n in NAMES}, 'prm': 1}, conds)]), dev, env)
    at_e, at_m = {}, {}
    # batch draws are taken in the order of the conditions, errors in the order of the measurements
    for n in NAMES:
        w = conds[n]
        if n in names and not late:
            r = env_rv[n]
            w = w + r.draw(at_e.get(id(r), 0))
            at_e[id(r)] = at_e.get(id(r), 0) + 1
        rows = lib.rows(rep, n, 0)
        if not cx.check(f'{n}: two sensors', len(rows) == 2):
            return
        for row in rows:
            x = w
            if n in names:
                r = err_rv[n]
                x = w + r.draw(at_m.get(id(r), 0))
                at_m[id(r)] = at_m.get(id(r), 0) + 1
            cx.eq(f'{n} as measured', row[4], x)
    cx.eq('an unregistered parameter is measured exactly', lib.rows(rep, 'prm', 0)[0][4], init.draw(0))
    cx.observe('v', rep.measurements['measured'].tolist())


def parameter(cx, form, pick):
    """instruments of parameters whose names are alike, and a condition with a parameter's instrument name"""
    from gerabaldi.models import (PhysTestEnv, EnvVrtnMdl, MeasInstrument, DeviceMdl, DegPrmMdl, FailMechMdl, DegMechMdl, CondShiftMdl,
                                  InitValMdl, LatentVar, TestSpec, MeasSpec)
    from gerabaldi import simulate
    prms = ('i', 'i_var', 'i_instm')
    rv = {p: cx.rv('init ' + p) for p in prms}
    lo, hi = cx.real('lo', -10, -1), cx.real('hi', 1, 10)
    ins = MeasInstrument(pick, meas_lims=(lo, hi))
    e = cx.rv('e')
    vm = EnvVrtnMdl(dev_vrtn_mdl=e, name=pick)
    env = PhysTestEnv({pick: vm}, {pick: ins}) if form == 'dict' else PhysTestEnv([vm], [ins])
    dev = DeviceMdl({p: DegPrmMdl({'m': DegMechMdl()}, init_val_mdl=InitValMdl(init_val=LatentVar(rv[p])),
                                  cond_shift_mdl=CondShiftMdl(lambda temp: temp)) for p in prms})
    T = cx.real('T')
    rep = simulate(TestSpec([MeasSpec({p: 2 for p in prms}, {'temp': T})]), dev, env)
    for p in prms:
        for d, r in enumerate(lib.rows(rep, p, 0)):
            x = rv[p].draw(d) + T
            if p == pick:
                x = lo if bool(x < lo) else hi if bool(x > hi) else x
            cx.eq(f'{p} {d}', r[4], x)


def derived(cx, form, pick, kind):
    """degrading and derived parameters and a sensor measured together, one of them with an instrument"""
    from gerabaldi.models import (PhysTestEnv, EnvVrtnMdl, MeasInstrument, DeviceMdl, DegPrmMdl, DegMechMdl, CircPrmMdl, InitValMdl,
                                  LatentVar, TestSpec, MeasSpec, StrsSpec)
    from gerabaldi import simulate
    rv, e = cx.rv('init'), cx.rv('e')
    lo, hi = cx.real('lo', -10, -1), cx.real('hi', 1, 10)
    ins = MeasInstrument(pick, **(dict(error=e) if kind == 'error' else dict(meas_lims=(lo, hi))))
    env = PhysTestEnv(meas_instms={pick: ins} if form == 'dict' else [ins])
    dev = DeviceMdl({'ro': CircPrmMdl(lambda vth, vdd: vdd - vth), 'vth': DegPrmMdl(
        {'m': DegMechMdl()}, init_val_mdl=InitValMdl(init_val=LatentVar(rv))), 'ro_x': CircPrmMdl(lambda vth: vth + vth)})
    vdd = cx.real('vdd')
    m = MeasSpec({'ro': 2, 'vdd': 2, 'vth': 2, 'ro_x': 2}, {'vdd': vdd})
    rep = simulate(TestSpec([m, StrsSpec({'vdd': vdd}, 1, time_unit='h'), m]), dev, env)
    k = 0
    for step in (0, 2):
        for n in m.measurements:
            rows = lib.rows(rep, n, step)
            if not cx.check(f'{n}: two values', len(rows) == 2):
                return
            for d, r in enumerate(rows):
                v = rv.draw(d)
                x = {'ro': vdd - v, 'vdd': vdd, 'vth': v, 'ro_x': v + v}[n]
                if n == pick:
                    if kind == 'error':
                        x = x + e.draw(k)
                        k += 1
                    else:
                        x = lo if bool(x < lo) else hi if bool(x > hi) else x
                cx.eq(f'{n} {d} in step {step}', r[4], x)


def clash(cx, on):
    """a parameter called 'meas', with and without an instrument of its own"""
    from gerabaldi.models import (PhysTestEnv, MeasInstrument, DeviceMdl, DegPrmMdl, DegMechMdl, InitValMdl, LatentVar,
                                  TestSpec, MeasSpec)
    from gerabaldi import simulate
    rv, e = cx.rv('init'), cx.rv('err')
    env = PhysTestEnv(meas_instms={'meas': MeasInstrument(error=e)} if on else None)
    dev = DeviceMdl({'meas': DegPrmMdl({'m': DegMechMdl()}, init_val_mdl=InitValMdl(init_val=LatentVar(rv)))})
    rep = simulate(TestSpec([MeasSpec({'meas': 1}, {})]), dev, env)
    cx.eq('measured', lib.rows(rep, 'meas', 0)[0][4], rv.draw(0) + e.draw(0) if on else rv.draw(0))


HARNESS = {
    'clash': dict(fn=clash, configs=lambda t: [dict(on=False), dict(on=True)]),
    'registered': dict(fn=registered, configs=lambda t: [
        dict(names=n, form=f, reverse=r, late=l) for n in (('v',), ('v_a', 'a'), ('a', 'v', 'var')) for f in ('dict', 'list')
        for r, l in ((False, False), (True, False), (False, True))]
        + [dict(names=n, form='dict', shared=True, reverse=r) for n in (('v', 'a'), ('a', 'var', 'v_a')) for r in (False, True)]
        + [dict(names=n, form=f, req=('temp', 'TEMP', 'default', 'Temp ', 'unspecified', 't')) for n in (
            ('temp',), ('default',), ('unspecified',), ('TEMP', 't'), ('Temp ', 'temp')) for f in ('dict', 'list')]),
    'derived': dict(fn=derived, opts=dict(witnesses=8), configs=lambda t: [dict(form=f, pick=p, kind='error') for f in ('dict', 'list') for p in (
        'ro', 'ro_x', 'vdd', 'vth')] + [dict(form='dict', pick=p, kind='limits') for p in ('ro', 'vdd')]),
    'parameter': dict(fn=parameter, configs=lambda t: [
        dict(form=f, pick=p) for f in ('dict', 'list') for p in ('i', 'i_var', 'i_instm')]),
}
