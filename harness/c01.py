"""C01: a time value means the same physical time in every supported unit."""
import datetime

from harness.lib import UNIT_US

BOUNDS = ('every positive real duration up to 10^15 us of physical time in each of the 10 unit names and without a unit; '
          'every timedelta of whole microseconds; 12 names that are not units; reports of up to 4 measurements, 3 stress '
          'phases and two successive conversions')
OUTSIDE = 'negative durations; sub-microsecond remainders (a duration is rounded to the nearest microsecond)'

BAD = ['minutes', 'm', 'min', 'weeks', 'sec', 'H', 'Hours', 'D', '', 'years', 'ns', 'S', 'MS', 'secs', 'hour', 'day']


def limit(unit):
    return 10**15 / UNIT_US[unit or 'h']


def number(cx, name, unit, kind='float'):
    if kind == 'int':
        return cx.int(name, 1, int(limit(unit)))
    return cx.real(name, lo=0, hi=limit(unit))


def near(cx, label, td, us):
    """td is the physical time us, rounded to a whole microsecond"""
    if cx.symbolic:
        got = cx.C.Sym(((None, cx.C.to_real(cx.C.td_us(td))),))
    else:
        if not isinstance(td, datetime.timedelta):
            cx.check(label + ' is a timedelta', False)
            return
        got = float(td // datetime.timedelta(microseconds=1))
    cx.le(label + ' not too long', got, us + 0.5000001, tol=1e-9)
    cx.le(label + ' not too short', us - 0.5000001, got, tol=1e-9)


def phase(cx, unit, kind='float'):
    from gerabaldi.models import StrsSpec
    x = number(cx, 'x', unit, kind)
    cx.assume(x * UNIT_US[unit or 'h'] > 0.51)
    s = StrsSpec({'temp': cx.real('T')}, x, time_unit=unit) if unit else StrsSpec({'temp': cx.real('T')}, x)
    near(cx, f'phase of x {unit}', s.duration, x * UNIT_US[unit or 'h'])
    cx.observe('d', s.duration)


def phase_td(cx, unit):
    from gerabaldi.models import StrsSpec
    td = cx.td('x', 1, 10**15)
    s = StrsSpec({'temp': cx.real('T')}, td, 'n', unit)
    cx.eq('timedelta kept', s.duration, td)
    cx.observe('d', s.duration)


def loop(cx, unit, k, as_td=False):
    """a loop of k repetitions: (k-1) periods are shorter than the loop duration, k are not"""
    from gerabaldi.models import StrsSpec, TestSpec
    if as_td:
        x = cx.td('x', 10, 10**15)
        us = cx.int('x.us', 10, 10**15) * 1.0
    else:
        x = number(cx, 'x', unit)
        us = x * UNIT_US[unit or 'h']
        cx.assume(us >= 10)
    p = cx.td('p', 1, 10**15)
    n = cx.int('p.us', 1, 10**15) * 1.0
    cx.assume((n * (k - 1) <= us - 1) & (n * k >= us + 1))
    t = TestSpec([])
    r = cx.raises(lambda: t.append_steps(StrsSpec({'temp': 1}, p), x, unit) if unit else
                  t.append_steps(StrsSpec({'temp': 1}, p), x), UserWarning)
    cx.check(f'loop of x {unit}: {k} repetitions', len(t.steps) == k)
    cx.observe('n', len(t.steps))


def report(cx, first, second=None):
    from gerabaldi.models import (StrsSpec, MeasSpec, TestSpec, PhysTestEnv, DeviceMdl, DegPrmMdl, DegMechMdl, InitValMdl,
                                  LatentVar)
    from gerabaldi import simulate
    prm = DegPrmMdl(DegMechMdl(mdl_name='m'), init_val_mdl=InitValMdl(init_val=LatentVar(deter_val=1)), prm_name='prm')
    steps, at, t = [], [], 0.0
    for i in range(3):
        steps.append(MeasSpec({'prm': 2 if i == 1 else 1}, {'temp': 1}))
        at += [t] * (2 if i == 1 else 1)
        if i < 2:
            steps.append(StrsSpec({'temp': 1}, cx.td(f'd{i}', 1, 10**15)))
            t = t + cx.int(f'd{i}.us', 1, 10**15) * 1.0
    rep = simulate(TestSpec(steps), DeviceMdl(prm), PhysTestEnv())
    for n, unit in enumerate([first] + ([second] if second != 'no' else [])):
        rep.convert_report_time(unit) if unit else rep.convert_report_time()
        got = rep.measurements['time'].tolist()
        cx.check('one time per measurement', len(got) == len(at))
        for i, (g, a) in enumerate(zip(got, at)):
            want = a / UNIT_US[unit or 'h']
            if n:  # converting a number back may round to a microsecond
                cx.le(f'conversion {n} row {i} not too long', g, want + 0.51 / UNIT_US[unit or 'h'], tol=1e-9)
                cx.le(f'conversion {n} row {i} not too short', want - 0.51 / UNIT_US[unit or 'h'], g, tol=1e-9)
            else:
                cx.eq(f'converted time {i} in {unit}', g, want, tol=1e-12)
    cx.observe('t', rep.measurements['time'].tolist())


def bad(cx, where):
    from gerabaldi.models import (StrsSpec, MeasSpec, TestSpec, PhysTestEnv, DeviceMdl, DegPrmMdl, DegMechMdl, InitValMdl,
                                  LatentVar)
    from gerabaldi import simulate
    from gerabaldi.exceptions import UserConfigError
    name = cx.choice('name', BAD)
    x = cx.real('x', lo=0.001, hi=1000)
    if where == 'phase':
        e = cx.raises(lambda: StrsSpec({'temp': 1}, x, time_unit=name), UserConfigError)
    elif where == 'loop':
        e = cx.raises(lambda: TestSpec([]).append_steps(StrsSpec({'temp': 1}, 1), x, name), UserConfigError)
    else:
        prm = DegPrmMdl(DegMechMdl(mdl_name='m'), init_val_mdl=InitValMdl(init_val=LatentVar(deter_val=x)), prm_name='prm')
        rep = simulate(TestSpec([MeasSpec({'prm': 1}, {'temp': x})]), DeviceMdl(prm), PhysTestEnv())
        e = cx.raises(lambda: rep.convert_report_time(name), UserConfigError)
    cx.check(f'{where} with unit {name!r} is rejected', e is not None)


UNITS = list(UNIT_US) + [None]
HARNESS = {
    'phase': dict(fn=phase, configs=lambda t: [dict(unit=u) for u in UNITS] + [dict(unit=u, kind='int') for u in UNITS]),
    'phase_td': dict(fn=phase_td, configs=lambda t: [dict(unit=u) for u in (None, 's', 'days')]),
    'loop': dict(fn=loop, configs=lambda t: [dict(unit=u, k=k) for u in UNITS for k in (1, 2, 5)]
                 + [dict(unit=None, k=3, as_td=True), dict(unit='s', k=3, as_td=True)]
                 + ([dict(unit=u, k=9) for u in UNITS] if t == 'thorough' else [])),
    'report': dict(fn=report, configs=lambda t: [dict(first=u, second=v) for u, v in zip(UNITS, ['no'] * 11)]
                   + [dict(first=a, second=b) for a, b in (('s', 'h'), ('d', 'us'), ('ms', 'days'), ('hours', None), ('s', None), ('days', None))]
                   + ([dict(first=a, second=b) for a in UNITS for b in UNITS] if t == 'thorough' else [])),
    'bad': dict(fn=bad, configs=lambda t: [dict(where=w) for w in ('phase', 'loop', 'report')]),
}
