"""C19: the bounded minimiser returns the minimum of every unimodal function."""
import bisect

import numpy as np

from harness import lib

BOUNDS = ('the real minimiser unrolled for up to 4 iterations (golden-section and parabolic steps; quick tier 3) on every '
          'strictly unimodal function, every position of its minimum and every precision, also on every interval for up to '
          '2 iterations; 1 to 3 elements; flat functions for 60 iterations; arrays of piecewise linear, polynomial and flat functions with every offset until they stop; logarithmic search in the exponent for 2 iterations (3)')
OUTSIDE = 'longer runs on functions that are not flat'


class Prob:
    """a strictly unimodal function on [lo, hi]: only its values at the points asked for are fixed"""

    def __init__(self, cx, tag, lo, hi, edge=None):
        self.cx, self.tag, self.pts = cx, tag, []
        self.at = lo if edge == 'lo' else hi if edge == 'hi' else cx.real(f'min_{tag}')
        if edge is None:
            cx.assume((self.at >= lo) & (self.at <= hi))
        self.best = cx.real(f'best_{tag}')
        if cx.symbolic:
            self.f = cx.func(f'f_{tag}', ['x'])
            self.pts.append((self.at, self.best))
        else:
            rows = sorted((float(r[0][0]), float(r[1])) for r in cx.tables.get(f'f_{tag}', []))
            self.rows = sorted({**dict(rows), float(self.at): float(self.best)}.items())

    def __call__(self, x):
        cx = self.cx
        if not cx.symbolic:
            y = self._interp(float(x))
            self.pts.append((float(x), y))
            return y
        C, en, z3 = cx.C, cx.en, cx.C.z3
        y = self.f(x)
        xe, ye = C._single(x), C._single(y)
        se = C._single(self.at)
        for p, q in self.pts:
            pe, qe = C._single(p), C._single(q)
            en.add(z3.Implies(xe == pe, ye == qe))
            en.add(z3.Implies(z3.And(xe < pe, pe <= se), ye > qe))
            en.add(z3.Implies(z3.And(pe < xe, xe <= se), ye < qe))
            en.add(z3.Implies(z3.And(xe > pe, pe >= se), ye > qe))
            en.add(z3.Implies(z3.And(pe > xe, xe >= se), ye < qe))
            # replayed functions should not be too steep or too shallow
            d = z3.If(xe > pe, xe - pe, pe - xe)
            v = z3.If(ye > qe, ye - qe, qe - ye)
            cx.nice.append(z3.Implies(z3.Or(z3.And(xe <= se, pe <= se), z3.And(xe >= se, pe >= se)),
                                      z3.And(v >= d / 8, v <= 8 * d)))
        self.pts.append((x, y))
        return y

    def _interp(self, x):
        xs = [r[0] for r in self.rows]
        i = bisect.bisect_left(xs, x)
        if i < len(xs) and xs[i] == x:
            return self.rows[i][1]
        if i == 0:
            return self.rows[0][1] + (xs[0] - x)
        if i == len(xs):
            return self.rows[-1][1] + (x - xs[-1])
        (x0, y0), (x1, y1) = self.rows[i - 1], self.rows[i]
        return y0 + (y1 - y0) * (x - x0) / (x1 - x0)


def fn(cx, probs):
    def func(x, k):
        out = np.empty(np.shape(k), dtype=object)
        xa = np.asarray(x, dtype=object)
        ka = np.asarray(k, dtype=object)
        xb = np.broadcast_to(xa, ka.shape)
        for ix in np.ndindex(*ka.shape):
            out[ix] = probs[int(ka[ix])](xb[ix])
        return cx._arr(out) if out.shape else out[()]
    return func


def solve(cx, iters, shape=(1,), lo=0.0, hi=1.0, free=False, edge=None, precision=None, log=False):
    from gerabaldi.math import minimize
    if cx.symbolic:
        cx.en.split_ite = True
    if free:
        lo = cx.real('lo', -1000, 1000)
        hi = lo + cx.real('width', 0.5, 1000)
    if precision is None:
        precision = cx.real('precision', 1e-6, 1000)
    n = int(np.prod(shape))
    probs = [Prob(cx, str(i), lo, hi, edge) for i in range(n)]
    g = fn(cx, probs)  # of the exponent in a logarithmic search
    f = (lambda x, k: g(exponent(cx, x), k)) if log else g
    ends = (10.0**lo, 10.0**hi) if log else (lo, hi)
    x = minimize(f, {'k': np.arange(n, dtype=float).reshape(shape)}, ends, precision=precision, maxiter=iters, log_gold=log)
    if cx.symbolic:
        cx.en.split_ite = False
    if not cx.check('one solution per element', np.shape(x) == tuple(shape)):
        return
    if log:
        x = exponent(cx, x)
    w = hi - lo
    for i, ix in enumerate(np.ndindex(*shape)):
        r, pr = x[ix], probs[i]
        seen = pr.pts[1:] if cx.symbolic else pr.pts
        done = len(seen) - 1  # iterations
        cx.check(f'{i}: at most the allowed iterations', done <= iters)
        slack = precision + 1e-6 * (w + 1)
        cx.check(f'{i}: within the interval', (r >= lo - slack) & (r <= hi + slack))
        fr = None
        for px, py in seen:
            cx.check(f'{i}: tries points of the interval', (px >= lo - slack) & (px <= hi + slack))
        fr = pr(r)
        for j, (px, py) in enumerate(seen):
            cx.check(f'{i}: as good as point {j}', fr <= py if cx.symbolic else fr <= py + 1e-9 * (1 + abs(py)))
        if done < iters:
            d = r - pr.at
            lim = precision * 1.001 + 1e-7 * (abs(r) if not cx.symbolic else cx.C.absv(r))
            cx.check(f'{i}: within the precision of the minimum', (d <= lim) & (d >= -lim))


def separate(cx, iters, shape):
    """elements do not influence each other: the same as solving each alone"""
    from gerabaldi.math import minimize
    if cx.symbolic:
        cx.en.split_ite = True
    n = int(np.prod(shape))
    probs = [Prob(cx, str(i), 0.0, 1.0) for i in range(n)]
    k = np.arange(n, dtype=float).reshape(shape)
    kw = dict(precision=1e-9, maxiter=iters)
    f = fn(cx, probs)
    x = minimize(f, {'k': k}, (0.0, 1.0), **kw)
    cx.check('one solution per element', np.shape(x) == tuple(shape))
    for i, ix in enumerate(np.ndindex(*shape)):
        y = minimize(f, {'k': np.array([k[ix]])}, (0.0, 1.0), **kw)
        cx.eq(f'{i}', x[ix], y[0])
    if cx.symbolic:
        cx.en.split_ite = False


SHAPES = {'abs': lambda x, m: abs(x - m), 'square': lambda x, m: (x - m) * (x - m), 'flat': lambda x, m: 0 * x,
          'step': lambda x, m: abs(x - m) * (1 + (x > m) * 9), 'fourth': lambda x, m: (x - m) * (x - m) * (x - m) * (x - m)}


def pace(cx, elems, lo=0.0, hi=1.0, precision=1e-3, iters=60, log=False, ints=False, eps=None):
    """elements that are narrowed down at different paces, each with any offset: none stops because of another"""
    from gerabaldi.math import minimize
    off = [cx.real(f'c{i}', -10, 10) for i in range(len(elems))]
    k = np.arange(len(elems), dtype=int if ints else float)
    calls = []

    def f(x, k):
        calls.append(1)
        e = exponent(cx, x) if log else x
        return cx._arr(np.array([SHAPES[n](e[i], m) + off[i] for i, (n, m) in enumerate(elems)], dtype=object))
    x = minimize(f, {'k': k}, (10.0**lo, 10.0**hi) if log else (lo, hi), precision=precision, maxiter=iters, log_gold=log,
                 **({'mach_eps': eps} if eps else {}))
    if not cx.check('one solution per element', np.shape(x) == (len(elems),)):
        return
    cx.check('at most the allowed iterations', len(calls) <= iters + 1)
    x = exponent(cx, x) if log else x
    for i, (n, m) in enumerate(elems):
        if n == 'flat':
            m = hi
        m = min(max(m, lo), hi)
        lim = precision * 1.01 + (4 * eps**0.5 * abs(m) if eps else 1e-6 * (hi - lo))
        cx.check(f'{i}: within the precision of the minimum', (x[i] >= m - lim) & (x[i] <= m + lim))


def flat(cx, iters, lo, hi, log=False, how='const', shape=(2,)):
    """nothing to gain anywhere: the upper end"""
    from gerabaldi.math import minimize
    c = cx.arr('c', tuple(shape))

    def f(x, c):
        return c if how == 'const' else abs(c - c) + 0 * x
    x = minimize(f, {'c': c}, (lo, hi), maxiter=iters, log_gold=log)
    if not cx.check('one solution per element', np.shape(x) == tuple(shape)):
        return
    for ix in np.ndindex(*shape):
        if log:
            cx.check(f'{ix}: upper end', (x[ix] >= 0.999 * hi) & (x[ix] <= 1.0001 * hi))
        else:
            cx.check(f'{ix}: upper end', (x[ix] >= hi - 2e-5 - 1e-6 * (hi - lo)) & (x[ix] <= hi + 2e-5))


def exponent(cx, x):
    if not cx.symbolic:
        return np.log10(x)
    return cx.N.finish(cx.N.elementwise(lambda v: cx.C.special('log10', v), x))


HARNESS = {
    'solve': dict(fn=solve, opts=dict(witnesses=12), configs=lambda t: [
        dict(iters=1), dict(iters=2), dict(iters=3), dict(iters=2, free=True), dict(iters=2, shape=(2,)),
        dict(iters=3, edge='lo'), dict(iters=3, edge='hi'), dict(iters=1, shape=(1, 2, 1)), dict(iters=3, precision=0.2),
        dict(iters=2, lo=-5.0, hi=3.0), dict(iters=1, free=True), dict(iters=2, lo=-3.0, hi=10.0, log=True),
        dict(iters=1, lo=0.0, hi=2.0, shape=(2,), log=True), dict(iters=2, lo=-3.0, hi=1.0, precision=1.0, log=True)]
        + ([dict(iters=4, precision=0.1), dict(iters=4, edge='lo'), dict(iters=4, edge='hi', lo=-7.0, hi=-2.0),
            dict(iters=2, shape=(3,)), dict(iters=3, lo=-3.0, hi=4.0, log=True)] if t == 'thorough' else [])),
    'separate': dict(fn=separate, opts=dict(witnesses=8), configs=lambda t: [dict(iters=2, shape=(2,)), dict(iters=1, shape=(1, 1, 2))]
                     + ([dict(iters=3, shape=(2,))] if t == 'thorough' else [])),
    'pace': dict(fn=pace, configs=lambda t: [
        dict(elems=(('abs', 0.3), ('flat', 0))), dict(elems=(('square', 0.9), ('abs', 0.01), ('flat', 0))),
        dict(elems=(('flat', 0), ('square', 0.4), ('fourth', 0.35), ('step', 0.77)), precision=1e-2),
        dict(elems=(('abs', 2.5), ('flat', 0)), lo=-3.0, hi=10.0, log=True, precision=1e-2),
        dict(elems=tuple(('abs' if i % 2 else 'square', 0.07 * i + 0.1) for i in range(11)), precision=1e-2),
        dict(elems=(('step', -7.0), ('abs', 80.0), ('square', 12.0)), lo=-20.0, hi=100.0, precision=0.5),
        dict(elems=(('abs', 0.1), ('flat', 0), ('square', 3.5)), lo=0.55, hi=3.7, ints=True),
        dict(elems=(('abs', -2.6), ('flat', 0), ('square', 3.25)), lo=-2.75, hi=3.5, log=True, precision=1e-2, ints=True),
        dict(elems=(('abs', 0.25),), lo=-1000.0, hi=200.0, precision=1.0, eps=1e-2)]),
    'flat': dict(fn=flat, configs=lambda t: [
        dict(iters=60, lo=lo, hi=hi, how=how, shape=shape, log=log)
        for lo, hi, log in [(0.0, 1.0, False), (-1000.0, 3.0, False), (1e-3, 1e10, True), (1e-6, 1e3, True)]
        for how, shape in [('const', (2,)), ('zero', (1, 2, 2))]]),
}
