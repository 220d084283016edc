"""Symbolic values and path exploration.

A gerabaldi function is executed on `Sym` / `SymBool` / `SymTD` values instead of floats / bools / timedeltas.  A Python
branch on a symbolic condition asks the engine, which asks z3 which sides are feasible and explores all of them by
re-execution.  Values are exact reals (the bound of the claim: floating point rounding is outside it, and is covered
only by the concrete replays)."""
from __future__ import annotations

import datetime as _dt
import math
import time as _time
from fractions import Fraction

import z3

REAL = z3.RealSort()
INT = z3.IntSort()


class SxAbort(BaseException):
    """Path-steering exceptions: BaseException so that `except Exception` in the code under test cannot swallow them."""


class Infeasible(SxAbort):
    pass


class Unsupported(SxAbort):
    """A construct outside the encoding; the path is handed to concrete execution and reported as such."""


class PathLimit(SxAbort):
    """More decisions on one path than the stated bound (unwinding check)."""


class Engine:
    def __init__(self, timeout_ms=10000, max_decisions=400):
        self.timeout_ms = timeout_ms
        self.max_decisions = max_decisions
        self.stats = dict(paths=0, branches=0, forced=0, feas_queries=0, solver_s=0.0, unknown_feas=0, asserts=0,
                          proved=0, unknown_assert=0)
        self.reset([])

    def reset(self, prefix):
        self.prefix = list(prefix)
        self.taken = []  # list of (kind, value)
        self.alts = []  # prefixes still to explore, discovered on this path
        self.pc = []
        self.names = {}
        self.vars = {}  # name -> z3 const (the inputs)
        self.fresh_n = {}
        self.split_ite = False
        self.ufapps = {}  # uf name -> list of (arg exprs, result expr)
        self.ufs = {}
        self.rounds = {}  # decimal places -> [(argument, rounded integer)]
        self.facts = []  # axiom instances (part of the path condition)
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.model = None  # a model of the current pc, if known
        self.notes = []

    # -- constraints
    def add(self, c):
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)
        if self.model is not None and not z3.is_true(self._ev(c)):
            self.model = None

    def _ev(self, c):
        try:
            return self.model.eval(c, model_completion=True)
        except z3.Z3Exception:
            return None

    def check(self, *extra):
        t = _time.time()
        self.stats['feas_queries'] += 1
        r = self.solver.check(*extra)
        self.stats['solver_s'] += _time.time() - t
        return r

    def feasible(self, c):
        if self.model is not None and z3.is_true(self._ev(c)):
            return True
        r = self.check(c)
        if r == z3.sat:
            self.model = self.solver.model()
            return True
        if r == z3.unknown:
            self.stats['unknown_feas'] += 1
            return True
        return False

    def assume(self, c):
        """Precondition of the harness (placed before the code it constrains)."""
        if isinstance(c, SymBool):
            c = c.e
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        c = z3.simplify(c)
        if z3.is_false(c):
            raise Infeasible()
        self.add(c)

    def fork(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.taken)
        if i >= self.max_decisions:
            raise PathLimit()
        if i < len(self.prefix):
            kind, v = self.prefix[i]
            assert kind in ('b', 'f'), 'nondeterministic re-execution'
            self.taken.append((kind, v))
            self.add(cond if v else z3.Not(cond))
            return v
        neg = z3.Not(cond)
        t = self.feasible(cond)
        f = self.feasible(neg)
        if t and f:
            self.stats['branches'] += 1
            self.alts.append(self.taken + [('b', False)])
            self.taken.append(('b', True))
            self.add(cond)
            return True
        if not t and not f:
            raise Infeasible()
        self.stats['forced'] += 1
        self.taken.append(('f', t))
        self.add(cond if t else neg)
        return t

    def choose(self, n):
        """n-way case split without solver (sizes, configurations)."""
        i = len(self.taken)
        if i < len(self.prefix):
            kind, v = self.prefix[i]
            assert kind == 'c', 'nondeterministic re-execution'
        else:
            v = 0
            for k in range(n - 1, 0, -1):
                self.alts.append(self.taken + [('c', k)])
            if n > 1:
                self.stats['branches'] += 1
        self.taken.append(('c', v))
        return v

    # -- names
    def const(self, name, sort):
        if name in self.vars:
            return self.vars[name]
        v = z3.Const(name, sort)
        self.vars[name] = v
        return v

    def fresh(self, stem, sort):
        n = self.fresh_n.get(stem, 0)
        self.fresh_n[stem] = n + 1
        return z3.Const(f'{stem}!{n}', sort)

    def uf(self, name, arity):
        if (name, arity) not in self.ufs:
            self.ufs[(name, arity)] = z3.Function(name, *([REAL] * arity), REAL)
        return self.ufs[(name, arity)]


E = None  # the current engine


def set_engine(e):
    global E
    E = e


def eng():
    if E is None:
        raise RuntimeError('no engine')
    return E


# ---------------------------------------------------------------------------------------------------------- numbers
INF = float('inf')


def is_special(v):
    return isinstance(v, float)


def num(v):
    """python number -> z3 value or special float"""
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    f = float(v)
    if math.isinf(f) or math.isnan(f):
        return f
    return z3.RealVal(Fraction(repr(f)))


def is_pynum(v):
    if isinstance(v, (int, float, Fraction)):
        return True
    t = type(v).__module__
    return t == 'numpy' and hasattr(v, 'dtype') and not hasattr(v, '__len__') and v.dtype.kind in 'iufb'


def py(v):
    """numpy scalar -> python scalar"""
    return v.item() if type(v).__module__ == 'numpy' and hasattr(v, 'item') else v


def to_real(e):
    return z3.ToReal(e) if e.sort() == INT else e


def and_(*cs):
    cs = [c for c in cs if c is not None and not z3.is_true(c)]
    if not cs:
        return None
    return cs[0] if len(cs) == 1 else z3.And(*cs)


def guard(c):
    return z3.BoolVal(True) if c is None else c


def mk(leaves, kind='float', meta=None):
    """Merge alternatives into at most one finite value plus +inf / -inf / nan alternatives."""
    fin, spec = [], {}
    for g, v in leaves:
        if g is not None:
            g = z3.simplify(g)
            if z3.is_false(g):
                continue
            if z3.is_true(g):
                g = None
        if is_special(v):
            key = 'nan' if math.isnan(v) else v
            spec.setdefault(key, []).append(g)
        else:
            fin.append((g, v))
    out = []
    if fin:
        if len(fin) == 1:
            out.append(fin[0])
        else:
            if any(v.sort() != INT for _, v in fin):
                fin = [(g, to_real(v)) for g, v in fin]
            e = fin[-1][1]
            for g, v in reversed(fin[:-1]):
                e = z3.If(guard(g), v, e)
            gs = [guard(g) for g, _ in fin]
            out.append((z3.simplify(z3.Or(*gs)), e))
    for key, gs in spec.items():
        g = z3.simplify(z3.Or(*[guard(x) for x in gs]))
        if z3.is_false(g):
            continue
        # drop special alternatives that cannot occur on this path
        if not z3.is_true(g) and E is not None and not eng().feasible(g):
            continue
        out.append((g, float('nan') if key == 'nan' else key))
    if not out:
        raise Infeasible()
    if len(out) == 1:
        out = [(None, out[0][1])]
        if is_special(out[0][1]):
            return out[0][1]
    return Sym(tuple(out), kind, meta)


def leaves(x):
    if isinstance(x, Sym):
        return x.lv
    if isinstance(x, SymBool):
        return ((None, z3.If(x.e, z3.IntVal(1), z3.IntVal(0))),)
    return ((None, num(py(x))),)


def ok(x):
    return isinstance(x, (Sym, SymBool)) or is_pynum(x)


def kind2(a, b):
    ka = a.kind if isinstance(a, Sym) else ('int' if isinstance(py(a), int) else 'float')
    kb = b.kind if isinstance(b, Sym) else ('int' if isinstance(py(b), int) else 'float')
    return 'int' if ka == kb == 'int' else 'float'


def _sign_split(e):
    e = to_real(e)
    return [(e > 0, 1), (e < 0, -1), (e == 0, 0)]


def arith(op, a, b, npmode=True):
    if not (ok(a) and ok(b)):
        return NotImplemented
    if op == 'pow':
        return power(a, b)
    out = []
    kind = kind2(a, b)
    meta = None
    for g1, x in leaves(a):
        for g2, y in leaves(b):
            g = and_(g1, g2)
            if is_special(x) or is_special(y):
                out.extend(_special_arith(op, g, x, y))
                continue
            if op in ('add', 'sub', 'mul'):
                if x.sort() != y.sort():
                    x2, y2 = to_real(x), to_real(y)
                else:
                    x2, y2 = x, y
                v = x2 + y2 if op == 'add' else x2 - y2 if op == 'sub' else x2 * y2
                if op == 'mul' and x2.eq(y2):
                    meta = ('abs', Sym(((None, x2),), kind))
                out.append((g, v))
            elif op in ('div', 'floordiv', 'mod'):
                out.extend(_div(op, g, x, y, npmode, kind))
            else:
                raise Unsupported(op)
    if op == 'div':
        kind = 'float'
    return mk(out, kind, meta)


def _div(op, g, x, y, npmode, kind):
    y0 = z3.simplify(to_real(y) == 0)
    out = []
    if not z3.is_false(y0):
        if z3.is_true(y0) or eng().feasible(and_(g, y0)):
            if not npmode:
                # python scalar semantics: ZeroDivisionError is a real outcome of that input
                if eng().fork(guard(and_(g, y0))):
                    raise ZeroDivisionError('division by zero')
            else:
                for c, s in _sign_split(x):
                    out.append((and_(g, y0, c), INF if s > 0 else -INF if s < 0 else float('nan')))
            if z3.is_true(y0):
                return out
            g = and_(g, z3.Not(y0))
    if op == 'div':
        out.append((g, to_real(x) / to_real(y)))
    else:
        q = z3.ToInt(to_real(x) / to_real(y))
        if op == 'floordiv':
            out.append((g, q if kind == 'int' else z3.ToReal(q)))
        else:
            r = to_real(x) - to_real(y) * z3.ToReal(q)
            if x.sort() == INT and y.sort() == INT:
                r = x - y * q
            out.append((g, r))
    return out


def _special_arith(op, g, x, y):
    nan = float('nan')
    if is_special(x) and is_special(y):
        with_np = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'div': lambda: nan}
        if op not in with_np:
            raise Unsupported('special ' + op)
        v = with_np[op]()
        return [(g, v)]
    if (is_special(x) and math.isnan(x)) or (is_special(y) and math.isnan(y)):
        return [(g, nan)]
    if op == 'add':
        return [(g, x if is_special(x) else y)]
    if op == 'sub':
        return [(g, x if is_special(x) else -y)]
    if op == 'mul':
        s, e = (x, y) if is_special(x) else (y, x)
        return [(and_(g, c), s if k > 0 else -s if k < 0 else nan) for c, k in _sign_split(e)]
    if op == 'div':
        if is_special(y):
            return [(g, z3.RealVal(0))]
        return [(and_(g, c), x if k >= 0 else -x) for c, k in _sign_split(y)]
    raise Unsupported('special ' + op)


def power(a, b):
    pb = py(b) if is_pynum(b) else None
    if pb is None and isinstance(b, Sym) and len(b.lv) == 1 and not is_special(b.lv[0][1]):
        s = z3.simplify(b.lv[0][1])
        if z3.is_int_value(s):
            pb = s.as_long()
        elif z3.is_rational_value(s):
            pb = float(s.as_fraction())
    if pb is not None and float(pb).is_integer() and abs(pb) <= 8:
        n = int(pb)
        if n == 0:
            return 1 if kind2(a, b) == 'int' else 1.0
        r = a
        for _ in range(abs(n) - 1):
            r = arith('mul', r, a)
        return r if n > 0 else arith('div', 1.0, r)
    if pb == 0.5:
        return special('sqrt', a)
    pa = py(a) if is_pynum(a) else None
    if pa == 10:
        return special('pow10', b)
    return special2('pow', a, b)


def _single(x):
    """the finite z3 real of x; alternatives that are infinite are split off by a branch"""
    lv = leaves(x)
    if len(lv) == 1 and not is_special(lv[0][1]):
        return to_real(lv[0][1])
    for g, v in lv:
        if is_special(v):
            if eng().fork(guard(g)):
                raise Special(v)
    return to_real([v for _, v in lv if not is_special(v)][0])


class Special(Exception):
    def __init__(self, v):
        self.v = v


MATH = {
    'sqrt': math.sqrt, 'exp': math.exp, 'log': math.log, 'log10': math.log10, 'pow10': lambda x: 10.0**x,
    'log2': math.log2, 'sin': math.sin, 'cos': math.cos, 'tanh': math.tanh, 'expm1': math.expm1, 'log1p': math.log1p,
}


def special(name, a):
    """elementary functions: uninterpreted, with sign / inverse facts"""
    if is_pynum(a):
        v = py(a)
        try:
            return MATH[name](v)
        except (ValueError, OverflowError):
            return float(__import__('numpy').__dict__.get(name, lambda x: float('inf'))(v))
    try:
        e = _single(a)
    except Special as s:
        v = s.v
        return {'exp': INF if v > 0 else 0.0, 'pow10': INF if v > 0 else 0.0}.get(name, v)
    en = eng()
    e = z3.simplify(e)
    if name in ('exp', 'pow10', 'log', 'log10', 'log2', 'sqrt') and z3.is_rational_value(e):
        fr = e.as_fraction()
        v = MATH[name](float(fr)) if not (name.startswith('log') and fr <= 0) else None
        if v is not None:
            return Sym(((None, num(v)),))
    inverse = {'log10': '$pow10', 'log': '$exp', 'log1p': '$expm1'}.get(name)
    if inverse and z3.is_app(e) and e.decl().eq(en.uf(inverse, 1)):
        return Sym(((None, e.arg(0)),))
    f = en.uf('$' + name, 1)
    r = f(e)
    apps = en.ufapps.setdefault('$' + name, [])
    if not any(a0[0].eq(e) for a0, _ in apps):
        for a0, r0 in apps:  # monotone functions
            if name in ('exp', 'pow10', 'log', 'log10', 'log2', 'sqrt', 'expm1', 'log1p', 'tanh'):
                pre = [] if name in ('exp', 'pow10', 'expm1', 'tanh') else [e > 0, a0[0] > 0]
                en.add(z3.Implies(z3.And(*pre, e < a0[0]), r < r0) if pre else z3.Implies(e < a0[0], r < r0))
                en.add(z3.Implies(z3.And(*pre, e > a0[0]), r > r0) if pre else z3.Implies(e > a0[0], r > r0))
        if name in ('exp', 'pow10'):
            en.add(r > 0)
            en.add(z3.Implies(e == 0, r == 1))
        if name == 'sqrt':
            en.add(z3.Implies(e >= 0, z3.And(r >= 0, r * r == e)))
        apps.append(((e,), r))
    return Sym(((None, r),), 'float', (name, a))


def lossy(a, bits):
    """conversion to a shorter floating point format: any number within the relative rounding error"""
    if is_pynum(a):
        import numpy as np
        return float({24: np.float32, 11: np.float16}[bits](py(a)))
    en = eng()
    lv = []
    for g, v in a.lv:
        if not is_special(v):
            v = z3.simplify(to_real(v))
            r = en.uf(f'$f{bits}', 1)(v)
            en.ufapps.setdefault(f'$f{bits}', []).append(((v,), r))
            u = z3.RealVal(Fraction(1, 2**bits)) * z3.If(v >= 0, v, -v)
            en.add(z3.And(r - v <= u, v - r <= u))
            v = r
        lv.append((g, v))
    return Sym(tuple(lv), 'float')


def special2(name, a, b):
    ea, eb = _single(a), _single(b)
    en = eng()
    ea, eb = z3.simplify(ea), z3.simplify(eb)
    f = en.uf('$' + name, 2)
    r = f(ea, eb)
    apps = en.ufapps.setdefault('$' + name, [])
    if not any(x[0].eq(ea) and x[1].eq(eb) for x, _ in apps):
        en.add(z3.Implies(ea > 0, r > 0))
        en.add(z3.Implies(eb == 1, r == ea))
        en.add(z3.Implies(eb == 0, r == 1))
        if name == 'pow':
            en.add(z3.Implies(z3.And(ea == 0, eb > 0), r == 0))
            for (xa, xb), rx in apps:  # grows with the base
                if xb.eq(eb):
                    en.add(z3.Implies(z3.And(eb > 0, ea >= 0, ea < xa), r < rx))
                    en.add(z3.Implies(z3.And(eb > 0, xa >= 0, ea > xa), r > rx))
        apps.append(((ea, eb), r))
    return Sym(((None, r),))


def compare(op, a, b, simp=True):
    if not (ok(a) and ok(b)):
        return NotImplemented
    parts = []
    for g1, x in leaves(a):
        for g2, y in leaves(b):
            g = and_(g1, g2)
            if is_special(x) or is_special(y):
                if (is_special(x) and math.isnan(x)) or (is_special(y) and math.isnan(y)):
                    r = op == 'ne'
                else:
                    fx = x if is_special(x) else 0.0
                    fy = y if is_special(y) else 0.0
                    r = {'lt': fx < fy, 'le': fx <= fy, 'gt': fx > fy, 'ge': fx >= fy, 'eq': fx == fy,
                         'ne': fx != fy}[op]
                c = z3.BoolVal(r)
            else:
                if x.sort() != y.sort():
                    x, y = to_real(x), to_real(y)
                c = {'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y,
                     'eq': lambda: x == y, 'ne': lambda: x != y}[op]()
            parts.append(c if g is None else z3.And(g, c))
    e = parts[0] if len(parts) == 1 else z3.Or(*parts)
    return SymBool(z3.simplify(e) if simp else e)


def ite(c, a, b):
    """merge two scalar values"""
    if isinstance(c, SymBool):
        if z3.is_true(c.e):
            return a
        if z3.is_false(c.e):
            return b
        ce = c.e
    else:
        return a if c else b
    if a is b:
        return a
    if E is not None and E.split_ite:  # case split instead of a conditional term
        return a if E.fork(ce) else b
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return SymBool(z3.simplify(z3.If(ce, tobool(a), tobool(b))))
    if isinstance(a, SymTD) or isinstance(b, SymTD):
        return SymTD(z3.If(ce, td_us(a), td_us(b)))
    if not (ok(a) and ok(b)):
        return a if bool(c) else b
    ls = [(and_(ce, g), v) for g, v in leaves(a)] + [(and_(z3.Not(ce), g), v) for g, v in leaves(b)]
    fins = [v for _, v in ls if not is_special(v)]
    if len(fins) == 2 and len(ls) == 2:
        x, y = fins
        if x.sort() != y.sort():
            x, y = to_real(x), to_real(y)
        if x.eq(y):
            return a
        return Sym(((None, z3.If(ce, x, y)),), kind2(a, b))
    return mk(ls, kind2(a, b))


def tobool(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, Sym):
        return compare('ne', x, 0).e
    if isinstance(x, SymTD):
        return x.us != 0
    return z3.BoolVal(bool(x))


class SymBool:
    __slots__ = ('e',)
    __array_priority__ = 2000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().fork(self.e)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)) or type(o).__name__ in ('bool_', 'bool'):
            return SymBool(z3.simplify(z3.And(self.e, tobool(o))))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)) or type(o).__name__ in ('bool_', 'bool'):
            return SymBool(z3.simplify(z3.Or(self.e, tobool(o))))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(z3.simplify(z3.Xor(self.e, tobool(o))))
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.simplify(z3.Not(self.e)))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(z3.simplify(self.e == tobool(o)))
        return compare('eq', self, o)

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        return hash(self.e)

    def __add__(self, o):
        return arith('add', self, o)

    __radd__ = __add__

    def __mul__(self, o):
        return arith('mul', self, o)

    __rmul__ = __mul__

    def __sub__(self, o):
        return arith('sub', self, o)

    def __rsub__(self, o):
        return arith('sub', o, self)

    def __index__(self):
        return int(bool(self))

    def any(self):
        return self

    all = any

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f'SymBool({self.e})'


class Sym:
    __slots__ = ('lv', 'kind', 'meta')
    __array_priority__ = 2000

    def __init__(self, lv, kind='float', meta=None):
        self.lv = lv
        self.kind = kind
        self.meta = meta

    @property
    def e(self):
        assert len(self.lv) == 1
        return self.lv[0][1]

    def __add__(self, o):
        return arith('add', self, o, False)

    def __radd__(self, o):
        return arith('add', o, self, False)

    def __sub__(self, o):
        return arith('sub', self, o, False)

    def __rsub__(self, o):
        return arith('sub', o, self, False)

    def __mul__(self, o):
        if isinstance(o, (_dt.timedelta, SymTD)):
            return td_scale(o, self)
        return arith('mul', self, o, False)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return arith('div', self, o, False)

    def __rtruediv__(self, o):
        if isinstance(o, _dt.timedelta):
            return SymTD(td_us(o)) / self
        return arith('div', o, self, False)

    def __floordiv__(self, o):
        return arith('floordiv', self, o, False)

    def __rfloordiv__(self, o):
        return arith('floordiv', o, self, False)

    def __mod__(self, o):
        return arith('mod', self, o, False)

    def __rmod__(self, o):
        return arith('mod', o, self, False)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        return arith('pow', self, o, False)

    def __rpow__(self, o):
        return arith('pow', o, self, False)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absv(self)

    def __lt__(self, o):
        return compare('lt', self, o)

    def __le__(self, o):
        return compare('le', self, o)

    def __gt__(self, o):
        return compare('gt', self, o)

    def __ge__(self, o):
        return compare('ge', self, o)

    def __eq__(self, o):
        return compare('eq', self, o)

    def __ne__(self, o):
        return compare('ne', self, o)

    def __bool__(self):
        return bool(compare('ne', self, 0))

    def __hash__(self):
        return 11  # equal values hash alike: a lookup compares, and the comparison forks

    def __float__(self):
        raise Unsupported('float() of a symbolic value inside compiled code')

    def __int__(self):
        return realise_int(trunc(self))

    def __index__(self):
        if self.kind != 'int':
            raise TypeError("'float' object cannot be interpreted as an integer")
        return realise_int(self)

    def __round__(self, n=None):
        return rounded(self, n)

    def round(self, decimals=0, out=None):
        return rounded(self, decimals)

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return ceil(self)

    def is_integer(self):
        return SymBool(z3.simplify(z3.IsInt(_single(self))))

    def item(self):
        return self

    def copy(self):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __format__(self, spec):
        import re
        m = re.fullmatch(r'\.(\d+)e', spec)
        if m:
            return token(('sig', self, int(m.group(1)) + 1))
        m = re.fullmatch(r'\.(\d+)f', spec)
        if m:
            return token(('dec', self, int(m.group(1))))
        m = re.fullmatch(r'\.(\d+)g', spec)
        if m:
            return token(('sig', self, int(m.group(1))))
        return '<sym>'

    def __str__(self):
        return '<sym>'

    def __repr__(self):
        return f'Sym({[(str(g), str(v)) for g, v in self.lv]})'


TOKENS = {}


def token(x):
    k = f'\u27e8{len(TOKENS)}\u27e9'
    TOKENS[k] = x
    return k


def neg(a):
    if is_pynum(a):
        return -py(a)
    return mk([(g, -v) for g, v in leaves(a)], a.kind if isinstance(a, Sym) else 'float')


def absv(a):
    if is_pynum(a):
        return abs(py(a))
    out = []
    for g, v in leaves(a):
        out.append((g, abs(v) if is_special(v) else z3.If(v >= 0, v, -v)))
    return mk(out, a.kind, ('abs', a))


def square(a):
    r = arith('mul', a, a)
    if isinstance(r, Sym):
        r = Sym(r.lv, r.kind, ('abs', a))
    return r


def sign(a):
    return ite(compare('gt', a, 0), 1.0, ite(compare('lt', a, 0), -1.0, 0.0))


def floor(a):
    if is_pynum(a):
        return math.floor(py(a))
    if isinstance(a, Sym) and a.meta and a.meta[0] == 'log10':
        return decade(a.meta[1])
    return Sym(((None, z3.ToInt(_single(a))),), 'int')


def ceil(a):
    if is_pynum(a):
        return math.ceil(py(a))
    if isinstance(a, Sym) and a.meta and a.meta[0] == 'log10':
        d = decade(a.meta[1])
        exact = compare('eq', a.meta[1], Fraction(10) ** d)
        return d if bool(exact) else d + 1
    return Sym(((None, -z3.ToInt(-_single(a))),), 'int')


def trunc(a):
    if is_pynum(a):
        return int(py(a))
    if a.kind == 'int':
        return a
    e = _single(a)
    if e.decl().kind() == z3.Z3_OP_TO_REAL:
        return Sym(((None, e.arg(0)),), 'int')
    return Sym(((None, z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))),), 'int')


DECADES = (-20, 19)


def decade(x):
    """floor(log10(x)) as a python int, by case split over the decades of the stated bound"""
    e = _single(x)
    if not eng().fork(e > 0):
        raise ValueError('math domain error')
    lo, hi = DECADES
    if not eng().fork(z3.And(e >= z3.RealVal(Fraction(10) ** lo), e < z3.RealVal(Fraction(10) ** (hi + 1)))):
        raise Unsupported('magnitude outside the decade bound')
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if eng().fork(e >= z3.RealVal(Fraction(10) ** mid)):
            lo = mid
        else:
            hi = mid - 1
    return lo


def realise_int(s):
    """case split over the values of an integer expression"""
    if isinstance(s, int):
        return s
    e = z3.simplify(s.lv[0][1])
    if e.sort() != INT:
        e = z3.simplify(z3.ToInt(e))
    if z3.is_int_value(e):
        return e.as_long()
    en = eng()
    for _ in range(64):
        i = len(en.taken)
        if i < len(en.prefix):
            kind, v = en.prefix[i]
            assert kind == 'v'
            val, eq = v
        else:
            if en.model is None:
                if en.check() != z3.sat:
                    raise Infeasible()
                en.model = en.solver.model()
            val = en.model.eval(e, model_completion=True).as_long()
            eq = True
            if en.feasible(e != val):
                en.stats['branches'] += 1
                en.alts.append(en.taken + [('v', (val, False))])
        en.taken.append(('v', (val, eq)))
        en.add(e == val if eq else e != val)
        if eq:
            return val
    raise PathLimit()


def rounded(a, n=None):
    if is_pynum(a):
        return round(py(a), n) if n is not None else round(py(a))
    if n is not None and not isinstance(n, int):
        n = realise_int(n)
    if a.kind == 'int' and (n is None or n >= 0):
        return a
    if len(a.lv) > 1:
        for g, v in a.lv:
            if is_special(v) and eng().fork(guard(g)):
                return v
    e = z3.simplify(_single(a))
    d = n or 0
    en = eng()
    # one rounding function: nearest, either neighbour on a tie, the same result for the same argument
    seen = en.rounds.setdefault(d, [])
    k = next((k0 for e0, k0 in seen if e0.eq(e)), None)
    if k is None:
        k = en.fresh('round', INT)
        s = e * z3.RealVal(Fraction(10) ** d)
        en.add(z3.And(s - z3.ToReal(k) <= z3.RealVal('1/2'), z3.ToReal(k) - s <= z3.RealVal('1/2')))
        for e0, k0 in seen:
            en.add(z3.Implies(e == e0, k == k0))
        seen.append((e, k))
    kr = z3.ToReal(k)
    if n is None:
        return Sym(((None, k),), 'int')
    return Sym(((None, kr * z3.RealVal(Fraction(10) ** (-d))),), 'float')


def sig_round(a, figs):
    if bool(compare('eq', a, 0)):
        return 0.0
    return rounded(a, figs - decade(absv(a)) - 1)


def parse_token(s):
    s = s.strip()
    if s in TOKENS:
        k, v, n = TOKENS[s]
        return sig_round(v, n) if k == 'sig' else rounded(v, n)
    return None


def real(name):
    return Sym(((None, eng().const(name, REAL)),))


def integer(name):
    return Sym(((None, eng().const(name, INT)),), 'int')


def const(v):
    return Sym(((None, num(v)),))


# ---------------------------------------------------------------------------------------------------------- timedelta
US = {'days': 86400 * 10**6, 'seconds': 10**6, 'microseconds': 1, 'milliseconds': 1000, 'minutes': 60 * 10**6,
      'hours': 3600 * 10**6, 'weeks': 7 * 86400 * 10**6}


def td_us(t):
    if isinstance(t, SymTD):
        return t.us
    if hasattr(t, 'value') and type(t).__module__.startswith('pandas'):
        return z3.IntVal(t.value // 1000)
    return z3.IntVal((t.days * 86400 + t.seconds) * 10**6 + t.microseconds)


def is_td(t):
    return isinstance(t, (SymTD, _dt.timedelta))


def td_round(e):
    """real microseconds -> integer microseconds, as timedelta rounds (half either way on a tie)"""
    e = z3.simplify(to_real(e))
    if e.decl().kind() == z3.Z3_OP_TO_REAL:
        return e.arg(0)
    if z3.is_rational_value(e):
        return z3.IntVal(round(e.as_fraction()))
    k = eng().fresh('us', INT)
    kr = z3.ToReal(k)
    eng().add(z3.And(e - kr <= z3.RealVal('1/2'), kr - e <= z3.RealVal('1/2')))
    return k


def make_td(*args, **kw):
    names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
    vals = dict(zip(names, args))
    vals.update(kw)
    tot = []
    for k, v in vals.items():
        if not ok(v):
            raise TypeError(f'unsupported type for timedelta {k} component')
        e = leaves(v)
        if len(e) != 1 or is_special(e[0][1]):
            raise Unsupported('infinite timedelta')
        e = e[0][1]
        tot.append(e * US[k] if e.sort() == INT else e * z3.RealVal(US[k]))
    if all(t.sort() == INT for t in tot):
        return SymTD(z3.Sum(*tot) if len(tot) > 1 else tot[0])
    return SymTD(td_round(z3.Sum(*[to_real(t) for t in tot]) if len(tot) > 1 else tot[0]))


def td_scale(t, k):
    e = leaves(k)[0][1]
    if is_special(e):
        raise Unsupported('infinite timedelta')
    if e.sort() == INT:
        return SymTD(td_us(t) * e)
    return SymTD(td_round(to_real(td_us(t)) * e))


class SymTD:
    __slots__ = ('us', 'cls')
    __array_priority__ = 2000

    def __init__(self, us, cls=None):
        self.us = us
        self.cls = cls  # None: datetime.timedelta, 'pd': came out of a pandas container

    def _bin(self, o, f):
        if not is_td(o):
            return NotImplemented
        return SymTD(f(self.us, td_us(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __neg__(self):
        return SymTD(-self.us)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymTD(z3.If(self.us >= 0, self.us, -self.us))

    def __mul__(self, o):
        if not ok(o):
            return NotImplemented
        return td_scale(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if is_td(o):
            return arith('div', Sym(((None, z3.ToReal(self.us)),)), Sym(((None, z3.ToReal(td_us(o))),)), False)
        if ok(o):
            q = arith('div', Sym(((None, z3.ToReal(self.us)),)), o, False)
            return SymTD(td_round(_single(q)))
        return NotImplemented

    def __rtruediv__(self, o):
        if is_td(o):
            return SymTD(td_us(o)) / self
        return NotImplemented

    def __floordiv__(self, o):
        if is_td(o):
            return arith('floordiv', Sym(((None, self.us),), 'int'), Sym(((None, td_us(o)),), 'int'), False)
        if ok(o):
            r = arith('floordiv', Sym(((None, self.us),), 'int'), o, False)
            return SymTD(r.lv[0][1])
        return NotImplemented

    def __rfloordiv__(self, o):
        return SymTD(td_us(o)) // self

    def __mod__(self, o):
        r = arith('mod', Sym(((None, self.us),), 'int'), Sym(((None, td_us(o)),), 'int'), False)
        return SymTD(r.lv[0][1])

    def __rmod__(self, o):
        return SymTD(td_us(o)) % self

    def _cmp(self, o, f):
        if not is_td(o):
            return NotImplemented
        return SymBool(z3.simplify(f(self.us, td_us(o))))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not is_td(o):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if not is_td(o):
            return True
        return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return eng().fork(self.us != 0)

    def __hash__(self):
        return 13

    def total_seconds(self):
        return Sym(((None, z3.ToReal(self.us) / 10**6),))

    @property
    def days(self):
        return Sym(((None, self.us / US['days']),), 'int')

    @property
    def seconds(self):
        return Sym(((None, (self.us % US['days']) / 10**6),), 'int')

    @property
    def microseconds(self):
        return Sym(((None, self.us % 10**6),), 'int')

    @property
    def value(self):
        return Sym(((None, self.us * 1000),), 'int')

    def to_pytimedelta(self):
        return SymTD(self.us)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return '<symtd>'

    def __format__(self, spec):
        return '<symtd>'
