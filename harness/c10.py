"""C10: every reported measurement carries the value of exactly the device it names."""
import numpy as np

from harness import lib
from harness.lib import us

BOUNDS = ('up to 3 lots, 3 chips and 4 devices in non-square shapes, and up to 260 along one axis; infinite and missing values; up to 3 measurement steps with different subsets of '
          'degrading and derived parameters and condition sensors; every device value and elapsed time any number')
STUBS = lib.MINIMISE_CONTRACT


def table(rep):
    m = rep.measurements
    cols = [m[c].tolist() for c in ('param', 'step #', 'lot #', 'chip #', 'device #', 'time', 'measured')]
    return list(zip(*cols))


def isnone(x):
    return x is None or (isinstance(x, float) and x != x)


def labels(cx, shape, plan, shift=False, gap=False):
    from gerabaldi.models import (DeviceMdl, DegPrmMdl, DegMechMdl, FailMechMdl, InitValMdl, CondShiftMdl, CircPrmMdl,
                                  LatentVar, TestSpec, StrsSpec, MeasSpec, PhysTestEnv, EnvVrtnMdl)
    from gerabaldi import simulate
    init, ini2, c = cx.rv('init'), cx.rv('init2'), cx.rv('c')
    sensor = cx.rv('sensor')
    prms = {'a': DegPrmMdl(DegMechMdl(mdl_name='m'), init_val_mdl=InitValMdl(init_val=LatentVar(init)),
                           cond_shift_mdl=CondShiftMdl(lambda c: c, c=LatentVar(c)) if shift else None),
            'b': DegPrmMdl({'m': DegMechMdl()}, init_val_mdl=InitValMdl(init_val=LatentVar(ini2))),
            'z': CircPrmMdl(lambda b: b * 2)}
    L, Cc, _ = shape
    T = cx.real('T')
    steps, at, t = [], [], 0
    for i, req in enumerate(plan):
        if i and gap:
            steps.append(StrsSpec({'temp': T}, cx.td(f'd{i}', 1, 10**15)))
            t = t + cx.int(f'd{i}.us', 1, 10**15)
        at.append((len(steps), t))
        steps.append(MeasSpec(dict(req), {'temp': T}))
    # sensors see their own variation: one draw per sensor
    env = PhysTestEnv({'temp': EnvVrtnMdl(dev_vrtn_mdl=sensor)})
    rep = simulate(TestSpec(steps, Cc, L), DeviceMdl(prms), env)
    rows = table(rep)
    sim = {p: rep.dev_counts[p] for p in 'ab'}
    want, sen = [], 0
    for (step, tm), req in zip(at, plan):
        for p, n in req.items():
            if p == 'temp':
                for k in range(n):
                    want.append((p, step, None, None, None, tm, T + sensor.draw(sen)))
                    sen += 1
                continue
            q, rv = ('a', init) if p == 'a' else ('b', ini2)
            for l, ch, d in np.ndindex(L, Cc, n):
                v = rv.draw((l * Cc + ch) * sim[q] + d)
                if p == 'z':
                    v = v * 2
                elif p == 'a' and shift:
                    v = v + c.draw((l * Cc + ch) * sim['a'] + d)
                want.append((p, step, l, ch, d, tm, v))
    if not cx.check('one row per requested device and sensor', len(rows) == len(want)):
        return
    for i, (g, w) in enumerate(zip(rows, want)):
        cx.check(f'row {i}: parameter', g[0] == w[0])
        cx.check(f'row {i}: step', g[1] == w[1])
        for k, n in ((2, 'lot'), (3, 'chip'), (4, 'device')):
            cx.check(f'row {i}: {n}', isnone(g[k]) if w[k] is None else (not isnone(g[k]) and g[k] == w[k]))
        td = cx.C.SymTD(cx.C._single(w[5]) if False else w[5].e) if cx.symbolic and not isinstance(w[5], int) else \
            __import__('datetime').timedelta(microseconds=w[5])
        cx.eq(f'row {i}: time', g[5], td)
        cx.eq(f'row {i}: value of {w[0]} lot {w[2]} chip {w[3]} device {w[4]}', g[6], w[6])
    cx.observe('v', [r[6] for r in rows])


def lost(cx, req):
    """devices whose value is not a number or infinite still have their row"""
    from gerabaldi.models import (DeviceMdl, DegPrmMdl, DegMechMdl, InitValMdl, CircPrmMdl, LatentVar, TestSpec, MeasSpec,
                                  PhysTestEnv)
    from gerabaldi import simulate
    init = cx.rv('init')
    prms = {'a': DegPrmMdl(DegMechMdl(mdl_name='m'), init_val_mdl=InitValMdl(
                lambda v: np.where(v > 3, np.nan, np.where(v < -3, np.inf, v)), v=LatentVar(init))),
            'z': CircPrmMdl(lambda a: a * 2)}
    rep = simulate(TestSpec([MeasSpec(dict(req), {})], 1, 1), DeviceMdl(prms), PhysTestEnv())
    n = rep.dev_counts['a']
    for p, k in req.items():
        rows = lib.rows(rep, p, 0)
        if not cx.check(f'{p}: one row per device', [r[2] for r in rows] == list(range(k))):
            return
        for i, r in enumerate(rows):
            v = init.draw(i)
            if bool(v > 3):
                cx.check(f'{p} {i}: not a number', bool(r[4] != r[4]))
            elif bool(v < -3):
                cx.check(f'{p} {i}: infinite', bool(r[4] == np.inf))
            else:
                cx.eq(f'{p} {i}: value', r[4], v * 2 if p == 'z' else v)
    assert n >= 1


def formatted(cx, shape, kind):
    """the formatting function itself, for every container it accepts"""
    from gerabaldi.models import SimReport
    full = (1,) * (3 - len(shape)) + tuple(shape)
    a = cx.arr('v', shape)
    arg = a.tolist() if kind == 'list' else a
    td = cx.td('t', 0, 10**15)
    df = SimReport.format_measurements(arg, 'p', td, 4, 'condition' if kind == 'condition' else 'parameter')
    rows = list(zip(*[df[n].tolist() for n in ('param', 'step #', 'lot #', 'chip #', 'device #', 'time', 'measured')]))
    if not cx.check('one row per value', len(rows) == int(np.prod(shape))):
        return
    for (ix, g) in zip(np.ndindex(*full), rows):
        v = np.asarray(a, dtype=object).reshape(full)[ix]
        cx.check(f'{ix}: labels', g[0] == 'p' and g[1] == 4 and
                 (all(isnone(x) for x in g[2:5]) if kind == 'condition' else tuple(g[2:5]) == ix))
        cx.eq(f'{ix}: time', g[5], td)
        cx.eq(f'{ix}: value', g[6], v)


P1 = ({'a': 4, 'temp': 2, 'b': 1}, {'b': 2, 'a': 2}, {'z': 1, 'temp': 1, 'a': 1})
P2 = ({'b': 1, 'a': 1}, {'a': 3, 'z': 2}, {'a': 2, 'b': 3})
HARNESS = {
    'labels': dict(fn=labels, configs=lambda t: [
        dict(shape=(2, 3, 4), plan=P1), dict(shape=(3, 2, 4), plan=P1, gap=True), dict(shape=(1, 3, 3), plan=P2, shift=True),
        dict(shape=(1, 260, 1), plan=({'a': 1},)), dict(shape=(260, 1, 1), plan=({'z': 1},)),
        dict(shape=(1, 1, 260), plan=({'b': 259, 'temp': 1}, {'a': 1})),
        dict(shape=(3, 1, 3), plan=P2, gap=True, shift=True), dict(shape=(2, 2, 3), plan=P2[1:])]
        + ([dict(shape=(3, 4, 4), plan=P1, shift=True, gap=True), dict(shape=(4, 1, 3), plan=P2 + P1, gap=True)]
           if t == 'thorough' else [])),
    'lost': dict(fn=lost, configs=lambda t: [dict(req={'a': 2}), dict(req={'z': 2}), dict(req={'a': 1, 'z': 2})]),
    'formatted': dict(fn=formatted, configs=lambda t: [
        dict(shape=s, kind=k) for s in ((2, 3, 4), (3, 2, 1), (1, 2, 3), (2, 3), (4,)) for k in ('array', 'list',
                                                                                                 'condition')]),
}
