"""C20: the HTOL recipe builds the test it describes for every configuration."""
import numpy as np

from harness import lib
from harness.lib import HOUR

BOUNDS = ('every duration and interval (whole hours and quarters of hours, up to 10^9) with up to 6 intervals per test (thorough tier 16) and every '
          'interval that does not fit; every temperature, voltage, factor, number of chips, lots and samples; every '
          'combination of one or two omitted arguments; the built test is also simulated for up to 3 intervals')
OUTSIDE = 'finer fractions of hours; more intervals'

DEFAULT = dict(vdd_nom=1.0, vdd_strs_mult=1.2, strs_meas_intrvl=1000, duration_override=1000, num_chps_override=77,
               num_lots_override=3, temp_override=125)


def arguments(cx, omit, K, small=False, frac=False):
    kw = dict(vdd_nom=cx.real('vdd', 0.01, 100), vdd_strs_mult=cx.real('mult', 0.01, 10),
              strs_meas_intrvl=cx.int('every', 1, 10**5 if small else 10**9), duration_override=cx.int('hours', 1, 10**5 if small else 10**9),
              num_chps_override=2 if small else cx.int('chips', 1, 10**6), num_lots_override=1 if small else cx.int('lots', 1, 10**6),
              temp_override=cx.real('temp', -200, 500) if cx.choice('temp is', ['real', 'int']) == 'real'
              else cx.int('tempi', -200, 500))
    if frac:  # quarters of an hour
        for k in ('strs_meas_intrvl', 'duration_override'):
            kw[k] = kw[k] * 0.25
    kw = {k: v for k, v in kw.items() if k not in omit}
    full = {**DEFAULT, **kw}
    cx.assume(full['duration_override'] <= K * full['strs_meas_intrvl'])
    return kw, full


def check_meas(cx, label, s, temp, vdd, want):
    from gerabaldi.models import MeasSpec
    if not cx.check(f'{label}: is a measurement', isinstance(s, MeasSpec)):
        return
    conditions(cx, label, s, temp, vdd)
    if cx.check(f'{label}: measures the requested parameters', set(s.measurements) == set(want)):
        for k, n in want.items():
            cx.eq(f'{label}: samples of {k}', s.measurements[k], n)


def conditions(cx, label, s, temp, vdd):
    if cx.check(f'{label}: has a temperature and a voltage', set(s.conditions) == {'temp', 'vdd'}):
        cx.eq(f'{label}: temperature in kelvin', s.conditions['temp'], temp)
        cx.eq(f'{label}: voltage', s.conditions['vdd'], vdd)


def recipe(cx, omit=(), K=6, prms=('a', 'b'), frac=False):
    from gerabaldi.cookbook import htol
    from gerabaldi.exceptions import UserConfigError
    from gerabaldi.models import MeasSpec, StrsSpec, TestSpec
    kw, full = arguments(cx, omit, K, frac=frac)
    want = {p: cx.int(f'n_{p}', 1, 10**6) for p in prms}
    given = dict(want)
    every, hours = full['strs_meas_intrvl'], full['duration_override']
    o, t = cx.outcome(lambda: htol(given, **kw))
    cx.check('the request is kept', list(given) == list(want) and all(given[k] is want[k] for k in want))
    r = None
    if bool(every >= hours):
        r = 0
    else:
        for i in range(2, K + 1):
            if bool(every * i == hours):
                r = i
    if r is None:
        cx.check('an interval that does not fit is rejected', o == 'raise' and isinstance(t, UserConfigError))
        return
    if not cx.check(f'a fitting interval is accepted', o == 'ok') or not cx.check('a test is built', isinstance(t, TestSpec)):
        return
    steps = list(t)
    cx.eq('chips', t.num_chps, full['num_chps_override'])
    cx.eq('lots', t.num_lots, full['num_lots_override'])
    vdd, hot = full['vdd_nom'], full['temp_override'] + 273.15
    svdd = vdd * full['vdd_strs_mult']
    strs = [s for s in steps if isinstance(s, StrsSpec)]
    total = 0
    for i, s in enumerate(strs):
        conditions(cx, f'phase {i}', s, hot, svdd)
        total = total + s.duration.total_seconds()
    cx.eq('the phases add up to the requested hours', total, hours * 3600)
    form = ''.join('s' if isinstance(s, StrsSpec) else 'm' for s in steps)
    if not cx.check('order of the steps', form == ('msm' if r == 0 else 'mm' + 'sm' * r + 'm')):
        return
    check_meas(cx, 'first', steps[0], 25 + 273.15, vdd, want)
    check_meas(cx, 'last', steps[-1], 25 + 273.15, vdd, want)
    for i, s in enumerate(steps[1:-1]):
        if isinstance(s, MeasSpec):
            check_meas(cx, f'step {i + 1}', s, hot, svdd, want)
        elif r:
            cx.eq(f'phase of step {i + 1} takes one interval', s.duration.total_seconds(), every * 3600)
    cx.observe('steps', [len(steps)])


def run(cx, K, omit=('temp_override', 'vdd_strs_mult')):
    """what simulating the test applies and reports"""
    from gerabaldi.cookbook import htol, ideal_env
    from gerabaldi.models import DeviceMdl, DegPrmMdl, FailMechMdl
    from gerabaldi import simulate
    kw, full = arguments(cx, omit, K, small=True)
    every, hours = full['strs_meas_intrvl'], full['duration_override']
    r = None
    for i in range(1, K + 1):
        if bool((every * i == hours) if i > 1 else (every >= hours)):
            r = i
    if r is None:
        return
    test = htol({'p': 2}, **kw)
    g = cx.func('g', ['time', 'temp', 'vdd'])
    prm = DegPrmMdl(FailMechMdl(g, mdl_name='m'), prm_name='p')
    rep = simulate(test, DeviceMdl(prm), ideal_env())
    hot = full['temp_override'] + 273.15
    svdd = full['vdd_nom'] * full['vdd_strs_mult']
    n = 3 if r == 1 else 2 * r + 3
    cx.check('as many steps', len(rep.test_summary) == n)
    sec = hours * 3600 if r == 1 else every * 3600
    ends = [t.total_seconds() for t in rep.test_summary['end time'].tolist()]
    for i in range(n):
        phases = i if r == 1 else i // 2
        phases = min(phases, r)
        cx.eq(f'step {i} ends', ends[i], (phases * hours * 3600) if r == 1 else phases * sec)
    v = g(sec / 3600 if r > 1 else hours * 1.0, hot, svdd)
    v0 = 0.0
    for ix in np.ndindex(1, 2, 2):
        got = lib.vals(rep, 'p', n - 1, (1, 2, 2))[ix]
        if r == 1:
            cx.eq(f'end of the test, device {ix}', got, v)
        cx.eq(f'start of the test, device {ix}', lib.vals(rep, 'p', 0, (1, 2, 2))[ix], v0)


def cfg(tier):
    out = [dict(omit=()), dict(omit=(), frac=True), dict(omit=('duration_override',), frac=True), dict(omit=tuple(DEFAULT)), dict(omit=(), prms=())]
    out += [dict(omit=(k,), prms=('a',)) for k in DEFAULT]
    out += [dict(omit=o, prms=('a',)) for o in (('strs_meas_intrvl', 'temp_override'), ('duration_override', 'vdd_nom'),
                                                ('strs_meas_intrvl', 'duration_override'), ('num_chps_override', 'num_lots_override'))]
    if tier == 'thorough':
        out += [dict(omit=(), K=16), dict(omit=(), K=16, frac=True)]
    return out


HARNESS = {
    'recipe': dict(fn=recipe, opts=dict(witnesses=12), configs=cfg),
    'run': dict(fn=run, opts=dict(witnesses=8), configs=lambda t: [dict(K=3), dict(K=1, omit=())]),
}
