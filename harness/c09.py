"""C09: an instrument reports error, then precision, then range, for every value."""
import math

import numpy as np
import pandas as pd

from harness import lib

BOUNDS = ('every value of magnitude 0 or 10^-18 to 10^16 (one value at a time; 10^-2 to 10^3 for two or three values '
          'together), also infinite; every error draw; 1 to 8 significant figures; every range; number, array and Series '
          '(also with an own index) containers (without precision: up to 1100 values); two measurements with one instrument')
OUTSIDE = 'which neighbour a tie between two roundings takes (any, but always the same); NaN; arrays of more than one dimension'


def rnd(cx, y, figs):
    """y rounded to figs significant figures (None for infinite values: unchanged)"""
    if cx.symbolic:
        C = cx.C
        z3 = C.z3
        if bool(C.compare('eq', y, 0)):
            return 0.0
        e = C.decade(C.absv(y))
        d = figs - e - 1
        t = C._single(y) * z3.RealVal(C.Fraction(10) ** d) + z3.RealVal('1/2')
        # keep replayed values away from ties
        cx.nice.append(z3.And(t - z3.ToReal(z3.ToInt(t)) > z3.RealVal('1/1000'),
                              t - z3.ToReal(z3.ToInt(t)) < z3.RealVal('999/1000')))
        return C.rounded(y, d)
    if y == 0:
        return 0.0
    e = math.floor(math.log10(abs(y)))
    q = 10.0 ** (e - figs + 1)
    t = y / q + 0.5
    if abs(t - round(t)) < 1e-6:
        from sx.ctx import Skip
        raise Skip()
    return math.floor(t) * q


def limit(cx, v, lims):
    if lims is None:
        return v
    if isinstance(v, float) and math.isinf(v):
        return lims[1] if v > 0 else lims[0]
    if cx.symbolic:
        return cx.C.ite(v < lims[0], lims[0], cx.C.ite(v > lims[1], lims[1], v))
    return min(max(v, lims[0]), lims[1])


def bounds_ok(cx, y, top, zero=True):
    """magnitude bound of this harness"""
    lo, hi = top
    cx.assume(((y >= lo) & (y < hi)) | ((y > -hi) & (y <= -lo)) | (y == 0))


def want(cx, x, err, figs, lims, top):
    y = x if err is None else x + err
    if isinstance(y, float) and math.isinf(y):
        r = y
    elif figs:
        bounds_ok(cx, y, top)
        r = rnd(cx, y, figs)
    else:
        r = y
    return limit(cx, r, lims)


def instrument(cx, figs, err, rng):
    from gerabaldi.models import MeasInstrument
    kw = {}
    if figs:
        kw['precision'] = figs
    if err:
        kw['error'] = err
    lims = None
    if rng:
        lims = (cx.real('lo'), cx.real('hi'))
        cx.assume(lims[0] <= lims[1])
        kw['meas_lims'] = lims
    return MeasInstrument('x', **kw), lims


def single(cx, figs, err, rng, kind, top=(1e-9, 1e9)):
    e = cx.rv('err') if err else None
    m, lims = instrument(cx, figs, e, rng)
    if kind == 'int':
        x = cx.int('x', -10**9, 10**9)
    elif kind == 'inf':
        x = cx.choice('x', [float('inf'), float('-inf')])
    else:
        x = cx.real('x')
    w = want(cx, x * 1.0, e.draw(0) if e else None, figs, lims, top)
    if kind == 'series':
        arg = pd.Series([x], dtype=object if cx.symbolic else float)
    elif kind == 'array':
        arg = cx._arr(np.array([x], dtype=object))
    else:
        arg = np.float64(x) if kind == 'float64' and not cx.symbolic else x
    got = m.measure(arg)
    if kind == 'series':
        cx.check('a Series comes back', isinstance(got, pd.Series) and len(got) == 1)
        got = got.tolist()[0]
    elif kind == 'array':
        cx.check('an array comes back', isinstance(got, np.ndarray) and got.shape == (1,))
        got = got[0]
    else:
        cx.check('a number comes back', not hasattr(got, '__len__'))
    cx.eq('measured value', got, w, tol=1e-9, abs_tol=1e-9 * min(1.0, top[0] * 1e9))
    cx.observe('v', got)


def several(cx, n, figs, err, rng, kind):
    top = (1e-1, 1e2)
    e = cx.rv('err') if err else None
    m, lims = instrument(cx, figs, e, rng)
    k = 0
    for call in range(1 if figs else 2):
        xs = [cx.real(f'x{call}.{i}') for i in range(n)]
        ws = [want(cx, x, e.draw(k + i) if e else None, figs, lims, top) for i, x in enumerate(xs)]
        k += n
        before = list(xs)
        if kind == 'array':
            arg = cx._arr(np.array(xs + [None], dtype=object)[:-1])
            got = m.measure(arg)
            cx.check('an array comes back', isinstance(got, np.ndarray) and got.shape == (n,))
            got = list(got)
        else:
            ix = list(range(n)) if kind == 'series' else [7, 3, 5, 1][:n]
            arg = pd.Series(xs, index=ix, dtype=object if cx.symbolic else float)
            got = m.measure(arg)
            cx.check('a Series comes back', isinstance(got, pd.Series) and list(got.index) == ix)
            got = got.tolist()
        cx.eqs(f'measured values, call {call}', got, ws, tol=1e-9)
        cx.eqs(f'true values are kept, call {call}', list(arg.tolist()), before)
        cx.observe('v', got)


def many(cx, n, kind):
    """many values at once, each with an error of its own"""
    e = cx.rv('err')
    m, _ = instrument(cx, None, e, False)
    xs = [cx.real(f'x{i % 7}') for i in range(n)]
    if kind == 'array':
        got = list(m.measure(cx._arr(np.array(xs, dtype=object))))
    else:
        got = m.measure(pd.Series(xs, dtype=object if cx.symbolic else float)).tolist()
    if cx.check('one value each', len(got) == n):
        cx.eqs('values', got, [x + e.draw(i) for i, x in enumerate(xs)])


def simulated(cx, shape, figs, err, rng):
    """the same through a simulation, for a parameter and for a condition sensor"""
    from gerabaldi.models import (PhysTestEnv, DeviceMdl, DegPrmMdl, DegMechMdl, InitValMdl, LatentVar, TestSpec, MeasSpec)
    from gerabaldi import simulate
    e, init = cx.rv('err') if err else None, cx.rv('init')
    m, lims = instrument(cx, figs, e, rng)
    on = cx.choice('instrument on', ['prm', 'temp', 'neither'])
    env = PhysTestEnv(meas_instms={on: m} if on != 'neither' else None)
    prm = DegPrmMdl(DegMechMdl(mdl_name='m'), init_val_mdl=InitValMdl(init_val=LatentVar(init)), prm_name='prm')
    T = cx.real('T')
    n = shape[0] * shape[1] * shape[2]
    true = {'prm': [init.draw(i) for i in range(n)], 'temp': [T, T]}
    ws = dict(true)
    if on != 'neither':
        ws[on] = [want(cx, x, e.draw(i) if e else None, figs, lims, (1e-1, 1e2)) for i, x in enumerate(true[on])]
    rep = simulate(TestSpec([MeasSpec({'prm': shape[2], 'temp': 2}, {'temp': T})], shape[1], shape[0]), DeviceMdl(prm), env)
    for name in true:
        cx.eqs(f'measured {name}', [r[4] for r in lib.rows(rep, name)], ws[name], tol=1e-9)


def cfg_single(t):
    out = []
    for kind in ('float', 'int', 'float64', 'series', 'array', 'inf'):
        for figs in (None, 1, 3) + ((2, 5, 8) if t == 'thorough' else ()):
            for err, rng in ((0, 0), (1, 0), (0, 1), (1, 1)):
                if kind in ('float64', 'array') and figs == 1:
                    continue
                out.append(dict(figs=figs, err=err, rng=rng, kind=kind))
    out += [dict(figs=f, err=1, rng=0, kind='series') for f in (2, 4, 6, 8)]
    out += [dict(figs=f, err=e, rng=0, kind=k, top=top) for k, f, e in (('float', 3, 0), ('series', 2, 1), ('array', 6, 0))
            for top in ((1e-18, 1e-9), (1e9, 1e16))]
    return out


HARNESS = {
    'many': dict(fn=many, configs=lambda t: [dict(n=1100, kind='array'), dict(n=1100, kind='series')]),
    'single': dict(fn=single, opts=dict(witnesses=40), configs=cfg_single),
    'several': dict(fn=several, opts=dict(witnesses=10), configs=lambda t: [
        dict(n=n, figs=f, err=e, rng=r, kind=k) for k in ('array', 'series', 'indexed')
        for n, f, e, r in ((3, None, 1, 1), (2, 3, 1, 0), (2, 2, 0, 1), (3, None, 0, 0))]
        + ([dict(n=3, figs=2, err=1, rng=0, kind=k) for k in ('array', 'indexed')] if t == 'thorough' else [])),
    'simulated': dict(fn=simulated, opts=dict(witnesses=10), configs=lambda t: [
        dict(shape=(1, 1, 2), figs=2, err=1, rng=0), dict(shape=(1, 2, 1), figs=None, err=1, rng=1),
        dict(shape=(2, 1, 2), figs=None, err=1, rng=0)]),
}
