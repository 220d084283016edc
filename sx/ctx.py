"""Contexts: the same harness runs symbolically (SymCtx) and on the unmodified package with concrete values (ConCtx)."""
from __future__ import annotations

import datetime as dt
import hashlib
import math

import numpy as np

US = {'days': 86400 * 10**6, 'd': 86400 * 10**6, 'hours': 3600 * 10**6, 'h': 3600 * 10**6, None: 3600 * 10**6,
      'seconds': 10**6, 's': 10**6, 'milliseconds': 1000, 'ms': 1000, 'microseconds': 1, 'us': 1}


class Skip(BaseException):
    """the concrete values do not satisfy the harness precondition"""


def make_fn(name, params, impl, doc=None):
    """a function with exactly the given parameter names (gerabaldi inspects signatures)"""
    ns = {'_impl': impl}
    exec(f'def {name}({", ".join(params)}):\n    return _impl({", ".join(params)})', ns)
    return ns[name]


class Base:
    tol = 1e-6
    symbolic = False

    def arr(self, name, shape, **k):
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            out[ix] = self.real(name + str(list(ix)).replace(' ', ''), **k)
        return self._arr(out)

    def rv(self, name, **k):
        from gerabaldi.models.random_vars import RandomVar

        cx = self

        class StreamRV(RandomVar):
            """A random variable whose i-th draw is the input `<name>.<i>`: every possible outcome, in draw order."""

            def __init__(self):
                self._dist_type = 'stream'
                self.name = None
                self.n = 0
                self.label = name

            def sample(self, quantity=1):
                i0 = self.n
                self.n += quantity
                return cx._arr(np.array([cx.real(f'{name}.{i}', **k) for i in range(i0, i0 + quantity)] + [None],
                                        dtype=object)[:-1])

            def draw(self, i):
                return cx.real(f'{name}.{i}', **k)

            def __deepcopy__(self, memo):
                return self

            def get_centre(self):
                return self.mu

            def set_centre(self, value, operation=None):
                self.mu = operation(value, self.mu) if operation else value
        return StreamRV()

    def draws(self, lo=-8, hi=8):
        """numpy generators made from now on give location + scale * z, where the i-th standard draw taken, of any
        generator, is the input z<i>; returns the list of the standard draws taken so far"""
        cx, log = self, []

        class Gen:
            def _take(self, size, f):
                n = 1 if size is None else int(np.prod(size))
                out = np.empty(n, dtype=object)
                for i in range(n):
                    log.append(cx.real(f'z{len(log)}', lo, hi))
                    out[i] = f(log[-1])
                return out[0] if size is None else cx._arr(out.reshape(size))

            def normal(self, loc=0.0, scale=1.0, size=None):
                return self._take(size, lambda z: loc + scale * z)

            def standard_normal(self, size=None):
                return self.normal(size=size)

            def uniform(self, low=0.0, high=1.0, size=None):
                raise NotImplementedError('uniform draws')

            def gamma(self, shape, scale=1.0, size=None):
                raise NotImplementedError('gamma draws')
        self._patch_rng(lambda seed=None: Gen())
        return log

    def raises(self, fn, *excs):
        """run fn; return the exception if it is one of excs, None if it returns"""
        try:
            fn()
        except excs as e:
            return e
        return None

    def outcome(self, fn):
        try:
            return 'ok', fn()
        except Exception as e:  # noqa: BLE001
            return 'raise', e

    def eqs(self, label, a, b, **k):
        """structural equality of nested containers"""
        if isinstance(a, dict) and isinstance(b, dict):
            if not self.check(label + '.keys', list(a) == list(b)):
                return
            for key in a:
                self.eqs(f'{label}.{key}', a[key], b[key], **k)
        elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if not self.check(label + '.len', len(a) == len(b)):
                return
            for i, (x, y) in enumerate(zip(a, b)):
                self.eqs(f'{label}[{i}]', x, y, **k)
        else:
            self.eq(label, a, b, **k)


class ConCtx(Base):
    """Concrete values from a solver model; comparisons are tolerant of floating point rounding."""

    def __init__(self, values, choices, tables, strict=False):
        # strict: tell apart all but floating point rounding (only for counterexamples of the solver)
        self.strict = strict
        self.scale = max([1.0] + [abs(v) for k, v in values.items() if isinstance(v, float) and math.isfinite(v)]
                         + [abs(x) for rows in tables.values() for r in rows for x in list(r[0]) + [r[1]]
                            if isinstance(x, float) and math.isfinite(x)])
        self.values = values
        self.choices = choices
        self.tables = tables
        self.violations = []
        self.obs = []
        self.checks = 0
        self.missing = []

    def _default(self, name):
        self.missing.append(name)
        h = int(hashlib.sha1(name.encode()).hexdigest()[:8], 16)
        return round(0.5 + h / 2**32 * 3, 4)

    def real(self, name, lo=None, hi=None, **k):
        v = self.values[name] if name in self.values else self._default(name)
        v = float(v)
        if name not in self.values:
            if lo is not None:
                v = max(v, lo)
            if hi is not None:
                v = min(v, hi)
        return v

    def int(self, name, lo=None, hi=None):
        v = self.values.get(name)
        v = int(v) if v is not None else (lo or 0)
        return v

    def bool(self, name):
        return bool(self.values.get(name, False))

    def choice(self, name, options):
        return options[self.choices.get(name, 0)]

    def td(self, name, lo=None, hi=None):
        return dt.timedelta(microseconds=self.int(name + '.us', lo, hi))

    def _arr(self, a):
        try:
            return np.array(a.tolist(), dtype=float).reshape(a.shape)
        except (TypeError, ValueError):
            return a

    def assume(self, c):
        if not bool(np.all(c)):
            raise Skip()

    def stub(self, name, fn):
        pass

    def where(self, c, a, b):
        return np.where(c, a, b)

    def _patch_rng(self, fn):
        real = np.random.default_rng
        np.random.default_rng = fn

        def undo():
            np.random.default_rng = real
        self.cleanup = undo

    def rng(self):
        """numpy generators made from now on have known seeds; std(kind, seed, i, n, *shape): the i-th standard draw"""
        real = np.random.default_rng
        made = []

        def default_rng(seed=None):
            made.append(seed)
            return real(10**6 + len(made) if seed is None else seed)
        self._patch_rng(default_rng)

        def std(kind, seed, calls):
            """standard draws of consecutive calls [(n, shape parameter)] of a generator"""
            g = real(10**6 + seed[1] if isinstance(seed, tuple) else seed)
            f = {'normal': lambda n, a: g.standard_normal(n), 'uniform': lambda n, a: g.random(n),
                 'gamma': lambda n, a: g.standard_gamma(a, n)}[kind]
            return [f(n, a) for n, a in calls]
        return std

    def func(self, name, params, mono=None, scalar_only=False, at0=None):
        rows = self.tables.get(name, [])
        mi = params.index(mono) if mono else None

        def one(*args):
            args = [float(x) for x in args]
            if mi is not None:
                return self._mono(rows, args, mi, at0, name)
            best = None
            for ra, rv in rows:
                d = max([abs(x - y) / (1e-9 + abs(x) + abs(y)) for x, y in zip(ra, args)], default=0.0)
                if best is None or d < best[0]:
                    best = (d, rv)
            if best is not None and best[0] < 1e-6:
                return best[1]
            h = int(hashlib.sha1((name + ','.join(f'{x:.6g}' for x in args)).encode()).hexdigest()[:8], 16)
            return 0.5 + h / 2**32

        def impl(*args):
            if any(isinstance(x, np.ndarray) and x.ndim for x in args):
                if scalar_only and any(isinstance(x, np.ndarray) and x.size > 1 for x in args):
                    if scalar_only == 'type':
                        raise TypeError('only length-1 arrays can be converted to Python scalars')
                    raise ValueError('The truth value of an array with more than one element is ambiguous.')
                return np.vectorize(one, otypes=[float])(*args)
            return one(*args)
        return make_fn(name, params, impl)

    def _mono(self, rows, args, mi, at0, name):
        """piecewise linear, increasing in argument mi, through the model's points"""
        t = args[mi]
        oth = [a for i, a in enumerate(args) if i != mi]
        pts, best = {}, None
        for ra, rv in rows:
            ro = tuple(a for i, a in enumerate(ra) if i != mi)
            d = max([abs(x - y) / (1e-9 + abs(x) + abs(y)) for x, y in zip(ro, oth)], default=0.0)
            if d < 1e-6 and (best is None or d < best[0]):
                best = (d, ro)
        for ra, rv in rows:  # the points of the closest curve only
            if best and tuple(a for i, a in enumerate(ra) if i != mi) == best[1]:
                pts[ra[mi]] = rv
        if at0 is not None:
            pts.setdefault(0.0, at0)
        if not pts:
            h = int(hashlib.sha1((name + ','.join(f'{x:.6g}' for x in oth)).encode()).hexdigest()[:8], 16)
            return (at0 or 0.0) + (0.5 + h / 2**32) * t
        ts = sorted(pts)
        if t <= ts[0]:
            return pts[ts[0]] + (t - ts[0])
        if t >= ts[-1]:
            if len(ts) > 1:
                s = (pts[ts[-1]] - pts[ts[-2]]) / (ts[-1] - ts[-2])
            else:
                s = 1.0
            return pts[ts[-1]] + max(s, 1e-9) * (t - ts[-1])
        import bisect
        i = bisect.bisect_right(ts, t)
        a, b = ts[i - 1], ts[i]
        return pts[a] + (pts[b] - pts[a]) * (t - a) / (b - a)

    # -- assertions
    def check(self, label, c, **k):
        self.checks += 1
        good = bool(np.all(c))
        if not good:
            self.violations.append((label, 'condition is false'))
        return good

    def le(self, label, a, b, tol=None):
        """a <= b up to tolerance"""
        self.checks += 1
        a, b = float(a), float(b)
        t = self.tol if tol is None else tol
        if not a <= b + t * (1 + abs(b)):
            self.violations.append((label, f'{a!r} > {b!r}'))

    def eq(self, label, a, b, tol=None, abs_tol=None):
        self.checks += 1
        r = self._eq(a, b, self.tol if tol is None else tol, abs_tol)
        if r is not None:
            self.violations.append((label, r))
        return r is None

    def _eq(self, a, b, tol, abs_tol):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            if np.shape(a) != np.shape(b):
                return f'shape {np.shape(a)} instead of {np.shape(b)}'
            for ix in np.ndindex(*np.shape(a)):
                r = self._eq(np.asarray(a)[ix], np.asarray(b)[ix], tol, abs_tol)
                if r:
                    return f'at {ix}: {r}'
            return None
        if hasattr(a, 'total_seconds') or hasattr(b, 'total_seconds'):
            if not (hasattr(a, 'total_seconds') and hasattr(b, 'total_seconds')):
                return f'{a!r} instead of {b!r}'
            x, y = a.total_seconds(), b.total_seconds()
            if abs(x - y) > 1.5e-6 + 1e-12 * abs(y):
                return f'{a!r} instead of {b!r}'
            return None
        num = (int, float, np.number, np.bool_)
        if isinstance(a, num) and isinstance(b, num) and not isinstance(a, bool) and not isinstance(b, bool):
            x, y = float(a), float(b)
            if x == y or (math.isnan(x) and math.isnan(y)):
                return None
            at = tol if abs_tol is None else abs_tol
            if self.strict:
                tol, at = min(tol, 1e-10), min(at, 1e-13 * self.scale)
            if math.isfinite(x) and math.isfinite(y) and abs(x - y) <= at + tol * max(abs(x), abs(y)):
                return None
            return f'{x!r} instead of {y!r}'
        if a is None or b is None:
            return None if a is b else f'{a!r} instead of {b!r}'
        try:
            same = bool(a == b)
        except Exception:  # noqa: BLE001
            same = a is b
        return None if same else f'{a!r} instead of {b!r}'

    def observe(self, label, v):
        def conv(x):
            if isinstance(x, np.ndarray):
                return [conv(y) for y in x.ravel().tolist()]
            if hasattr(x, 'total_seconds'):
                return x.total_seconds()
            if isinstance(x, (list, tuple)):
                return [conv(y) for y in x]
            if isinstance(x, dict):
                return {str(k): conv(y) for k, y in x.items()}
            if hasattr(x, 'tolist') and not isinstance(x, (str, bytes)):
                return conv(x.tolist())
            if isinstance(x, (int, float, str, bool)) or x is None:
                return x
            return str(x)
        self.obs.append((label, conv(v)))


class SymCtx(Base):
    symbolic = True

    def __init__(self, engine):
        from . import core as C
        from . import npx as N
        from . import load as L
        self.C, self.N, self.L = C, N, L
        self.en = engine
        self.checks = []  # (label, cond z3, strong violation z3)
        self.choices = {}
        self.obs = []
        self.nice = []  # soft constraints for model selection

    def real(self, name, lo=None, hi=None, nice=None, **k):
        new = name not in self.en.vars
        s = self.C.real(name)
        if new:
            z3 = self.C.z3
            if lo is not None:
                self.en.add(s.e >= z3.RealVal(repr(lo) if isinstance(lo, float) else lo))
            if hi is not None:
                self.en.add(s.e <= z3.RealVal(repr(hi) if isinstance(hi, float) else hi))
            if nice:
                self.nice.append(z3.And(s.e >= nice[0], s.e <= nice[1]))
        return s

    def int(self, name, lo=None, hi=None):
        new = name not in self.en.vars
        s = self.C.integer(name)
        if new:
            if lo is not None:
                self.en.add(s.e >= lo)
            if hi is not None:
                self.en.add(s.e <= hi)
        return s

    def bool(self, name):
        return self.C.SymBool(self.en.const(name, self.C.z3.BoolSort()))

    def choice(self, name, options):
        if name in self.choices:
            return options[self.choices[name]]
        i = self.en.choose(len(options))
        self.choices[name] = i
        return options[i]

    def td(self, name, lo=None, hi=None):
        return self.C.SymTD(self.int(name + '.us', lo, hi).e)

    def _arr(self, a):
        return a.view(self.N.SArr)

    def assume(self, c):
        if isinstance(c, np.ndarray):
            c = self.N.np_all(c)
        if isinstance(c, (bool, np.bool_)):
            c = bool(c)
        self.en.assume(c)

    def stub(self, name, fn):
        self.L.STUBS[name] = fn

    def _patch_rng(self, fn):
        L = self.L
        old = L.SHIMS.get(np.random.default_rng)
        L.SHIMS[np.random.default_rng] = fn

        def undo():
            L.SHIMS.pop(np.random.default_rng, None)
            if old:
                L.SHIMS[np.random.default_rng] = old
        self.cleanup = undo

    def rng(self):
        C, N, L = self.C, self.N, self.L
        cx = self
        made = []

        def key(seed):
            return seed if not isinstance(seed, tuple) else -1000 - seed[1]

        def draw(kind, seed, i, a=None):
            z3 = C.z3
            args = [C._single(C.py(key(seed))), C._single(i)] + ([C._single(C.py(a))] if a is not None else [])
            f = cx.en.uf('$' + kind, len(args))
            r = f(*args)
            if kind == 'uniform':
                cx.en.add(z3.And(r >= 0, r < 1))
            elif kind == 'gamma':
                cx.en.add(r >= 0)
            return C.Sym(((None, r),))

        class Rng:
            def __init__(self, seed):
                made.append(self)
                self.seed = ('fresh', len(made)) if seed is None else seed
                self.n = 0

            def _draw(self, kind, size, f, a=None):
                if size is None:
                    n, shape = 1, ()
                elif isinstance(size, tuple):
                    n, shape = int(np.prod(size)), size
                else:
                    n, shape = int(size), (int(size),)
                out = np.empty(n, dtype=object)
                for j in range(n):
                    out[j] = f(draw(kind, self.seed, self.n + j, a))
                self.n += n
                return out.reshape(shape).view(N.SArr) if size is not None else out[0]

            def normal(self, loc=0.0, scale=1.0, size=None):
                return self._draw('normal', size, lambda z: C.arith('add', loc, C.arith('mul', scale, z)))

            def standard_normal(self, size=None):
                return self.normal(size=size)

            def uniform(self, low=0.0, high=1.0, size=None):
                return self._draw('uniform', size, lambda z: C.arith('add', low, C.arith('mul', C.arith('sub', high, low), z)))

            def random(self, size=None):
                return self.uniform(size=size)

            def gamma(self, shape, scale=1.0, size=None):
                return self._draw('gamma', size, lambda z: C.arith('mul', scale, z), shape)

            def standard_gamma(self, shape, size=None):
                return self.gamma(shape, size=size)

            def __getattr__(self, name):
                if name.startswith('__'):
                    raise AttributeError(name)
                raise C.Unsupported(f'generator method {name}')
        self._patch_rng(lambda seed=None: Rng(seed))

        def std(kind, seed, calls):
            out, i = [], 0
            for n, a in calls:
                out.append([draw(kind, seed, i + j, a) for j in range(n)])
                i += n
            return out
        return std

    def where(self, c, a, b):
        if self.N.has_sym([c, a, b]) or isinstance(c, self.C.SymBool):
            return self.N.np_where(c, a, b)
        return np.where(c, a, b)

    def func(self, name, params, mono=None, scalar_only=False, at0=None):
        C, N, z3 = self.C, self.N, self.C.z3
        en = self.en
        mi = params.index(mono) if mono else None

        def one(*args):
            for a in args:
                if not C.ok(C.py(a)):
                    raise TypeError(f'equation argument {type(a)}')
            try:
                ea = tuple(z3.simplify(C._single(C.py(a))) for a in args)
            except C.Special as s:
                raise C.Unsupported(f'infinite argument of an equation: {s.v}')
            f = en.uf(name, len(ea))
            r = f(*ea) if ea else z3.Real(name + '!const')
            apps = en.ufapps.setdefault(name, [])
            if not any(all(x.eq(y) for x, y in zip(a0, ea)) for a0, _ in apps):
                if mi is not None:
                    t = ea[mi]
                    oth = [x for i, x in enumerate(ea) if i != mi]
                    if at0 is not None:
                        en.add(z3.Implies(t > 0, r > at0))
                        en.add(z3.Implies(t == 0, r == at0))
                        self.nice.append(z3.Implies(t > 0, z3.And(r - at0 >= t / 4, r - at0 <= 4 * t)))
                    for a0, r0 in apps:
                        if all(x.eq(y) for x, y in zip([x for i, x in enumerate(a0) if i != mi], oth)):
                            t0 = a0[mi]
                            en.add(z3.And(z3.Implies(t < t0, r < r0), z3.Implies(t > t0, r > r0)))
                            d = t - t0
                            self.nice.append(z3.And(
                                z3.Implies(d > 0, z3.And(r - r0 >= d / 4, r - r0 <= 4 * d)),
                                z3.Implies(d < 0, z3.And(r0 - r >= -d / 4, r0 - r <= -4 * d))))
                else:
                    self.nice.append(z3.And(r >= -50, r <= 50))
                apps.append((ea, r))
            return C.Sym(((None, r),))

        def impl(*args):
            args = [a.to_numpy() if hasattr(a, 'to_numpy') else a for a in args]
            if any(isinstance(x, np.ndarray) and x.ndim for x in args):
                if scalar_only and any(isinstance(x, np.ndarray) and x.size > 1 for x in args):
                    if scalar_only == 'type':
                        raise TypeError('only length-1 arrays can be converted to Python scalars')
                    raise ValueError('The truth value of an array with more than one element is ambiguous.')
                return N.finish(N.elementwise(one, *args))
            return one(*[x[()] if isinstance(x, np.ndarray) else x for x in args])
        return make_fn(name, params, impl)

    # -- assertions
    def _push(self, label, cond, strong=None):
        z3 = self.C.z3
        if z3.is_true(cond):
            self.en.stats['asserts'] += 1
            self.en.stats['trivial'] = self.en.stats.get('trivial', 0) + 1
        self.checks.append((label, cond, strong))
        return not z3.is_false(z3.simplify(cond))

    def check(self, label, c, **k):
        C = self.C
        if isinstance(c, np.ndarray):
            c = self.N.np_all(c)
        return self._push(label, C.tobool(c))

    def le(self, label, a, b, tol=None):
        C = self.C
        z3 = C.z3
        c = C.compare('le', a, b, simp=False)
        strong = C.compare('gt', a, C.arith('add', b, C.arith('mul', 0.01, C.arith('add', 1, C.absv(b)))))
        return self._push(label, C.tobool(c), C.tobool(strong))

    def eq(self, label, a, b, tol=None, abs_tol=None):
        conds, strongs = [], []
        bad = self._eq(a, b, conds, strongs)
        z3 = self.C.z3
        if bad:
            return self._push(label + ': ' + bad, z3.BoolVal(False))
        return self._push(label, z3.And(*conds) if conds else z3.BoolVal(True),
                          z3.Or(*strongs) if strongs else None)

    def _eq(self, a, b, conds, strongs):
        C, N = self.C, self.N
        z3 = C.z3
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            if np.shape(a) != np.shape(b):
                return f'shape {np.shape(a)} instead of {np.shape(b)}'
            for ix in np.ndindex(*np.shape(a)):
                r = self._eq(np.asarray(a)[ix], np.asarray(b)[ix], conds, strongs)
                if r:
                    return r
            return None
        if C.is_td(a) or C.is_td(b):
            if not (C.is_td(a) and C.is_td(b)):
                return 'not a time delta'
            x, y = C.td_us(a), C.td_us(b)
            conds.append(x == y)
            strongs.append(z3.Or(x - y > 5, y - x > 5))
            return None
        a, b = C.py(a), C.py(b)
        if isinstance(a, (bool, C.SymBool)) and isinstance(b, (bool, C.SymBool)):
            conds.append(C.tobool(a) == C.tobool(b))
            return None
        if C.ok(a) and C.ok(b):
            import math as m
            if isinstance(a, float) and isinstance(b, float) and m.isnan(a) and m.isnan(b):
                return None
            c = C.compare('eq', a, b, simp=False)
            conds.append(c.e)
            d = C.absv(C.arith('sub', a, b)) if not _inf(a) and not _inf(b) else None
            if d is not None:
                try:
                    s = C.compare('gt', d, C.arith('mul', 0.01, C.arith('add', 1, C.absv(b))))
                    strongs.append(s.e)
                except C.Unsupported:
                    strongs.append(z3.Not(c.e))
            else:
                strongs.append(z3.Not(c.e))
            return None
        if a is None or b is None:
            return None if a is b else f'{type(a).__name__} instead of {type(b).__name__}'
        same = a == b
        if isinstance(same, C.SymBool):
            conds.append(same.e)
            return None
        return None if bool(same) else f'{str(a)[:60]} instead of {str(b)[:60]}'

    def observe(self, label, v):
        self.obs.append((label, v))


def _inf(x):
    return isinstance(x, float) and not math.isfinite(x)
