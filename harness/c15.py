"""C15: a report survives export to JSON and reloading unchanged."""
import os
import shutil
import tempfile

import numpy as np

from harness import lib
from harness.c10 import table, isnone

BOUNDS = ('reports of up to 3 measurement and 2 stress steps (one: 7 and 6, 21 rows; one: 136 rows) with different conditions, degrading and derived parameters and '
          'sensors; every duration and starting time up to 10^13 us, every measured and condition value up to 10^6; every '
          'time unit for export and conversion, to new and to existing files; up to 2 conversions and 2 export/load rounds')
STUBS = ('symbolic runs: the text pandas writes for a table is a token standing for its cells rounded to the requested '
         'number of decimals (DataFrame.to_json / pandas.read_json); time deltas left in a table become milliseconds. The '
         'real functions run in every replay')
OUTSIDE = 'names that look like numbers or dates, reports without measurements, numbers above 10^6'

UNITS = ('days', 'd', 'hours', 'h', 'seconds', 's', 'milliseconds', 'ms', 'microseconds', 'us')


def summary(rep):
    s = rep.test_summary
    cols = list(s.columns)
    return cols, [dict(zip(cols, r)) for r in zip(*[s[c].tolist() for c in cols])]


def near(cx, label, a, b):
    """equal to 15 decimal places (concrete runs: to floating point accuracy)"""
    if isnone(b):
        return cx.check(label, isnone(a))
    if isinstance(b, str):
        return cx.check(label, a == b)
    if not cx.check(label + ' is a number', not isnone(a) and not isinstance(a, str) and not hasattr(a, 'total_seconds')):
        return
    if cx.symbolic:
        C = cx.C
        d = C.absv(C.arith('sub', a, b))
        return cx._push(label, C.tobool(C.compare('le', d, C.num(1) / 10**15 if False else 1e-15)),
                        C.tobool(C.compare('gt', d, 1e-9)))
    return cx.eq(label, a, b, tol=1e-13, abs_tol=1.1e-15)


def check_same(cx, label, rep, want, times=None):
    name, desc, rows, (cols, summ) = want
    cx.check(f'{label}: name and description', rep.test_name == name and rep.test_description == desc)
    got = table(rep)
    if not cx.check(f'{label}: measurement rows', len(got) == len(rows)):
        return
    for i, (g, w) in enumerate(zip(got, rows)):
        cx.check(f'{label}: row {i} parameter and step', g[0] == w[0] and g[1] == w[1])
        for k in (2, 3, 4):
            cx.check(f'{label}: row {i} place', (isnone(g[k]) and isnone(w[k])) or
                     (not isnone(g[k]) and not isnone(w[k]) and g[k] == w[k]))
        if times is None:
            cx.eq(f'{label}: row {i} time', g[5], w[5])
        else:
            cx.eq(f'{label}: row {i} time in {times}', g[5], num(cx, w[5], times), tol=1e-12)
        near(cx, f'{label}: row {i} value', g[6], w[6])
    cx.check(f'{label}: numbered rows', [x for x in rep.measurements.index] == list(range(len(rows))) and
             [x for x in rep.test_summary.index] == list(range(len(summ))))
    gc, gs = summary(rep)
    if not cx.check(f'{label}: summary columns and rows', set(gc) == set(cols) and len(gs) == len(summ)):
        return
    for i, (g, w) in enumerate(zip(gs, summ)):
        for c in cols:
            if c in ('duration', 'start time', 'end time'):
                cx.eq(f'{label}: summary {i} {c}', g[c], w[c])
            else:
                near(cx, f'{label}: summary {i} {c}', g[c], w[c])


def num(cx, td, unit):
    """the number a time is in a unit"""
    if cx.symbolic:
        return cx.C.Sym(((None, cx.C.z3.ToReal(cx.C.td_us(td))),)) / lib.UNIT_US[unit]
    return td.total_seconds() * 10**6 / lib.UNIT_US[unit]


def make(cx, plan, shape=(1, 2), text=('My test', 'A "quoted" description')):
    from gerabaldi.models import (DeviceMdl, DegPrmMdl, DegMechMdl, InitValMdl, CircPrmMdl, LatentVar, TestSpec, StrsSpec,
                                  MeasSpec, PhysTestEnv)
    from gerabaldi import simulate, gen_init_state
    rv = cx.rv('init', lo=-1e6, hi=1e6)
    dev = DeviceMdl({'a': DegPrmMdl(DegMechMdl(mdl_name='m'), init_val_mdl=InitValMdl(init_val=LatentVar(rv))),
                     'z': CircPrmMdl(lambda a, volt: a + volt)})
    steps = []
    for i, x in enumerate(plan):
        T, V = cx.real(f'T{i}', -1e6, 1e6), cx.real(f'V{i}', -1e6, 1e6)
        if x == 's':
            steps.append(StrsSpec({'temp': T, 'hum': V}, cx.td(f'd{i}', 1, 10**13), f'stress {i}'))
        else:
            steps.append(MeasSpec(dict(x), {'volt': V, 'temp': T}, f'meas {i}'))
    st = gen_init_state(dev, {'a': 2}, shape[1], shape[0], elapsed_time=cx.td('t0', 0, 10**13))
    rep = simulate(TestSpec(steps, shape[1], shape[0], *text), dev, PhysTestEnv(), st)
    return rep


def roundtrip(cx, plan, unit, convert=(), again=None, sub=True, text=('My test', 'A "quoted" description'), over=False):
    from gerabaldi.models import SimReport
    rep = make(cx, plan, text=text)
    want = (rep.test_name, rep.test_description, table(rep), summary(rep))
    box = tempfile.mkdtemp(prefix='sxc15')
    try:
        now = None
        for u in convert:
            if u is None:
                rep.convert_report_time()
            else:
                rep.convert_report_time(u)
            now = u or 'h'
            check_same(cx, f'converted to {u}', rep, want, now)
        path = os.path.join(box, 'new', 'r.json') if sub else os.path.join(box, 'r.json')
        if over:  # there is a (longer) file already
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w') as f:
                f.write('{"old": "' + 'x' * 10**6 + '"}')
        rep.export_to_json(path, unit) if unit else rep.export_to_json(path)
        check_same(cx, 'exporting keeps the report', rep, want, now)
        back = SimReport(file=path)
        check_same(cx, 'loaded', back, want)
        if again is not None:
            u2, conv2 = again
            if conv2:
                back.convert_report_time(conv2)
                check_same(cx, 'loaded and converted', back, want, conv2)
            path2 = os.path.join(box, 'second.json') if not over else path
            back.export_to_json(path2, u2) if u2 else back.export_to_json(path2)
            check_same(cx, 'exporting again keeps the loaded report', back, want, conv2)
            third = SimReport(file=path2)
            check_same(cx, 'loaded again', third, want)
        cx.observe('v', [r[6] for r in table(back)])
    finally:
        shutil.rmtree(box, ignore_errors=True)


def refused(cx, unit):
    from gerabaldi.exceptions import UserConfigError
    rep = make(cx, ({'a': 1},))
    want = (rep.test_name, rep.test_description, table(rep), summary(rep))
    o, e = cx.outcome(lambda: rep.export_to_json(time_unit=unit))
    cx.check('unknown unit rejected', o == 'raise' and isinstance(e, UserConfigError))
    check_same(cx, 'kept', rep, want)
    d = rep.export_to_json(time_unit='h')
    cx.check('returned without a file', isinstance(d, dict) and d['Test Name'] == 'My test')


M1, M2 = {'a': 2, 'temp': 1}, {'z': 1, 'a': 1}
P1, P2, P3 = (M1, 's', M2), ('s', M1, 's', M2), (M2, M1)
LONG = ({'a': 2, 'temp': 3}, 's', {'z': 2}, 's', {'volt': 1}) + ('s', {'a': 1}) * 4
HARNESS = {
    'roundtrip': dict(fn=roundtrip, opts=dict(witnesses=6), configs=lambda t: [dict(plan=P1, unit=u, sub=i % 2 == 0) for i, u in
                                                                  enumerate(UNITS + (None,))]
                      + [dict(plan=P2, unit=u, convert=c) for u, c in (
                          ('h', ('s',)), ('s', ('d',)), (None, ('ms',)), ('us', ('hours', 'us')), (None, (None,)),
                          ('ms', ('s', 'h')), (None, ('days', 'seconds')), ('d', ('microseconds',)))]
                      + [dict(plan=P1, unit=u, again=a) for u, a in (
                          ('s', ('h', None)), ('us', (None, None)), (None, ('d', 's')), ('d', (None, 'ms')),
                          ('ms', ('us', 'h')))]
                      + [dict(plan=({'temp': 2}, 's', {'volt': 1, 'temp': 1}), unit=u, again=('s', None)) for u in ('d', None)]
                      + [dict(plan=LONG, unit='h'), dict(plan=LONG, unit='us', convert=('s',), again=('d', None))]
                      + [dict(plan=({'a': 2, 'temp': 130}, 's', {'z': 1}), unit='us')]
                      + [dict(plan=P3, unit='d', convert=('h',), again=('us', 'days'))]
                      + [dict(plan=P2, unit='us', over=True, sub=s, again=('d', None)) for s in (True, False)]
                      + [dict(plan=P3, unit='h', again=(None, None), text=x) for x in (
                          ('T', None), ('T', ''), ('', 'd'), ('é\n\t\\', "it's"), ('None', 'null'), (' T  x ', '\n d\t'), ('ABC', 'Def'), ('a/b.json', '{}'))]
                      + ([dict(plan=P2, unit=u, convert=(c,), again=(v, w)) for u in ('d', 'us', 'h') for c in UNITS[::2]
                          for v in (None, 'ms') for w in (None, 's', 'd')] if t == 'thorough' else [])),
    'refused': dict(fn=refused, configs=lambda t: [dict(unit=u) for u in ('weeks', 'H', '', 'min')]),
}
