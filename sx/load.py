"""Load gerabaldi from /repo's current source for symbolic execution.

The source is compiled on every run; the only change to it is that each call `f(...)` becomes `__sx_call__(f, ...)`, so
that the few builtins, constructors and C functions that would force a concrete value (float, int, round, type,
isinstance, timedelta, math.floor, np.full, ...) work on symbolic values.  Nothing is written to disk."""
from __future__ import annotations

import ast
import builtins
import datetime
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import math
import os
import sys

import numpy as np
import pandas as pd

from . import core as C
from . import npx as N
from .core import Sym, SymBool, SymTD, Unsupported

ENTERED = {}  # qualname -> number of symbolic activations


def enter(q):
    ENTERED[q] = ENTERED.get(q, 0) + 1


# ------------------------------------------------------------------------------------------------------ call shims
def sx_type(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    if isinstance(x, Sym):
        return int if x.kind == 'int' else float
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymTD):
        return pd.Timedelta if x.cls == 'pd' else datetime.timedelta
    if isinstance(x, N.SArr):
        return np.ndarray
    return type(x)


def sx_isinstance(x, cls):
    if isinstance(x, (Sym, SymBool, SymTD)):
        t = sx_type(x)
        cs = cls if isinstance(cls, tuple) else (cls,)
        flat = []
        for c in cs:
            flat.extend(c if isinstance(c, tuple) else (c,))
        if any(c in (np.floating, np.float64, np.number) for c in flat if isinstance(c, type)) and t is float:
            return True
        return issubclass(t, tuple(flat)) or isinstance(x, cls)
    return isinstance(x, cls)


def sx_short(bits):
    def f(*a):
        if a and isinstance(a[0], Sym):
            return C.lossy(sx_float(a[0]), bits)
        if a and isinstance(a[0], N.SArr):
            return N.cast(a[0], {24: 'f4', 11: 'f2'}[bits])
        return {24: np.float32, 11: np.float16}[bits](*a)
    return f


def sx_float(*a):
    if a and isinstance(a[0], Sym):
        x = a[0]
        return Sym(tuple((g, v if C.is_special(v) else C.to_real(v)) for g, v in x.lv), 'float', x.meta)
    if a and isinstance(a[0], SymBool):
        return C.ite(a[0], 1.0, 0.0)
    if a and isinstance(a[0], N.SArr):
        if a[0].size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return sx_float(a[0].flat[0])
    if a and isinstance(a[0], str):
        r = C.parse_token(a[0])
        if r is not None:
            return r
    if a and isinstance(a[0], SymTD):
        raise TypeError("float() argument must be a string or a real number, not 'datetime.timedelta'")
    return float(*a)


def sx_int(*a, **k):
    if a and isinstance(a[0], Sym):
        return C.trunc(a[0])
    if a and isinstance(a[0], SymBool):
        return C.ite(a[0], 1, 0)
    if a and isinstance(a[0], N.SArr):
        return sx_int(a[0].item())
    return int(*a, **k)


def sx_bool(*a):
    return bool(*a)


def sx_round(x, n=None):
    if isinstance(x, Sym):
        return C.rounded(x, n)
    return round(x, n) if n is not None else round(x)


def sx_timedelta(*a, **k):
    if any(isinstance(x, Sym) for x in list(a) + list(k.values())):
        return C.make_td(*a, **k)
    if any(isinstance(x, SymTD) for x in list(a) + list(k.values())):
        raise TypeError('unsupported type for timedelta component: datetime.timedelta')
    return datetime.timedelta(*a, **k)


def sx_pd_timedelta(*a, **k):
    if a and isinstance(a[0], SymTD):
        return SymTD(a[0].us, 'pd')
    if any(isinstance(x, Sym) for x in list(a) + list(k.values())):
        if a:
            unit = k.pop('unit', a[1] if len(a) > 1 else 'ns')
            names = {'h': 'hours', 'H': 'hours', 'hours': 'hours', 'hour': 'hours', 'd': 'days', 'D': 'days',
                     'days': 'days', 's': 'seconds', 'seconds': 'seconds', 'ms': 'milliseconds', 'us': 'microseconds',
                     'milliseconds': 'milliseconds', 'microseconds': 'microseconds', 'm': 'minutes', 'min': 'minutes'}
            if unit not in names:
                raise Unsupported('pd.Timedelta unit')
            k = {names[unit]: a[0]}
        return SymTD(C.make_td(**k).us, 'pd')
    return pd.Timedelta(*a, **k)


def sx_math1(name, fallback):
    def f(x, *a):
        if isinstance(x, N.SArr):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            x = x.flat[0]
        if isinstance(x, Sym) or any(isinstance(y, Sym) for y in a):
            return N_MATH[name](x, *a)
        return fallback(x, *a)
    return f


def _domain(name):
    def f(x, *a):
        if name.startswith('log'):
            if not bool(C.compare('gt', x, 0)):
                raise ValueError('math domain error')
            if a:
                return C.special('log', x) / C.special('log', a[0])
        return C.special(name, x)
    return f


def _isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    d = C.absv(a - b)
    m = N._max(C.absv(a), C.absv(b))
    return (d <= rel_tol * m) | (d <= abs_tol)


N_MATH = {
    'floor': C.floor, 'ceil': C.ceil, 'trunc': C.trunc, 'fabs': C.absv, 'exp': _domain('exp'), 'log10': _domain('log10'),
    'log': _domain('log'), 'log2': _domain('log2'), 'sqrt': _domain('sqrt'), 'isclose': _isclose,
    'isinf': lambda x: N._special_pred(math.isinf)(x), 'isnan': lambda x: N._special_pred(math.isnan)(x),
    'isfinite': lambda x: N._special_pred(math.isfinite)(x), 'pow': C.power,
    'copysign': lambda a, b: C.ite(C.compare('ge', b, 0), C.absv(a), C.neg(C.absv(a))),
}


def sx_divmod(a, b):
    if isinstance(a, (Sym, SymTD)) or isinstance(b, (Sym, SymTD)):
        return a // b, a % b
    return divmod(a, b)


def tag_pd(df):
    """symbolic time deltas read back from a pandas container are pandas Timedeltas"""
    try:
        if isinstance(df, pd.DataFrame):
            for j in range(df.shape[1]):
                col = df.iloc[:, j]
                if col.dtype == object and any(isinstance(x, SymTD) and x.cls is None for x in col):
                    df.isetitem(j, pd.Series([SymTD(x.us, 'pd') if isinstance(x, SymTD) else x for x in col],
                                             index=col.index, dtype=object))
        elif isinstance(df, pd.Series) and df.dtype == object:
            if any(isinstance(x, SymTD) and x.cls is None for x in df):
                df = pd.Series([SymTD(x.us, 'pd') if isinstance(x, SymTD) else x for x in df], index=df.index,
                               dtype=object, name=df.name)
    except SyntaxError:
        pass
    return df


def sx_dataframe(*a, **k):
    return tag_pd(pd.DataFrame(*[N_plain(x) for x in a], **{n: N_plain(x) for n, x in k.items()}))


def sx_series(*a, **k):
    if 'dtype' in k and k['dtype'] is not None and a and N.has_sym(a[0]):
        k['dtype'] = object
    if a and isinstance(a[0], Sym):
        a = ([a[0]],) + a[1:]
    return tag_pd(pd.Series(*[N_plain(x) for x in a], **k))


def N_plain(x):
    if isinstance(x, N.SArr):
        return x.view(np.ndarray)
    if isinstance(x, dict):
        return {k: N_plain(v) for k, v in x.items()}
    return x


# JSON text of a table is modelled: a token stands for the text, numbers are rounded as pandas writes them
def sx_to_json(df, path=None, orient=None, double_precision=10, **k):
    if isinstance(df, pd.Series) or path is not None or orient not in (None, 'columns', 'split', 'index') or any(
            v is not None and (n, v) not in (('date_format', 'epoch'), ('date_unit', 'ms'), ('force_ascii', True),
                                             ('index', True)) for n, v in k.items()):
        raise Unsupported('to_json options')
    en = C.eng()
    store = en.__dict__.setdefault('json_texts', {})
    if len(store) > 1000:
        store.clear()
    text = f'{{"sxdf":{len(store)}}}'

    def conv(x):
        if isinstance(x, Sym):
            return x if x.kind == 'int' else json_number(x, double_precision)
        if isinstance(x, (SymTD, datetime.timedelta)):
            us = C.td_us(x)
            return Sym(((None, us / 1000),), 'int')
        if isinstance(x, (float, np.floating)):
            if math.isinf(x) or math.isnan(x):
                return None
            return round(float(x), double_precision)
        if isinstance(x, np.integer):
            return int(x)
        return x
    cols = {c: [conv(x) for x in df[c].tolist()] for c in df.columns}
    store[text] = (orient or 'columns', cols, list(df.index))
    return text


def json_number(x, dp):
    """a number within half a unit of the last written decimal of x"""
    if len(x.lv) > 1:
        for g, v in x.lv:
            if C.is_special(v) and C.eng().fork(C.guard(g)):
                return None
    e = C._single(x)
    r = C.eng().fresh('json', C.REAL)
    h = C.z3.RealVal(C.Fraction(1, 2 * 10**dp))
    C.eng().add(C.z3.And(r - e <= h, e - r <= h))
    return Sym(((None, r),), 'float')


def sx_read_json(src, *a, orient=None, **k):
    import io
    import pathlib
    if isinstance(src, io.StringIO):
        src = src.read()
    store = C.eng().__dict__.get('json_texts', {})
    if not isinstance(src, str) or src not in store:
        return tag_pd(pd.read_json(src, *a, orient=orient, **k))
    if any(n not in ('precise_float', 'typ') for n in k) or a:
        raise Unsupported('read_json options')
    o, cols, index = store[src]
    if o != (orient or 'columns'):
        raise Unsupported('read_json orient')
    out = {}
    for c, vs in cols.items():
        if N.has_sym(vs) or any(isinstance(v, SymBool) for v in vs):
            out[c] = pd.Series([float('nan') if v is None else v for v in vs], index=index, dtype=object)
        else:
            out[c] = pd.Series(vs, index=index)
    return pd.DataFrame(out, index=index)


def sx_repeat_like(f):
    def g(*a, **k):
        return N.post(f(*[x.view(np.ndarray) if isinstance(x, N.SArr) else x for x in a], **k))
    return g


SHIMS = {
    type: sx_type, isinstance: sx_isinstance, float: sx_float, int: sx_int, round: sx_round, divmod: sx_divmod,
    datetime.timedelta: sx_timedelta, pd.Timedelta: sx_pd_timedelta, pd.DataFrame: sx_dataframe, pd.Series: sx_series,
    np.full: N.np_full, np.empty: N.np_create(np.empty), np.zeros: N.np_create(np.zeros),
    np.ones: N.np_create(np.ones), np.array: N.np_array(np.array), np.asarray: N.np_array(np.asarray),
    np.asanyarray: N.np_array(np.asarray), np.ascontiguousarray: N.np_array(np.asarray),
    np.fromiter: N.np_fromiter, np.vectorize: N.np_vectorize, np.float64: sx_float, np.float32: sx_short(24), np.float16: sx_short(11),
    pd.read_json: sx_read_json,
    np.nditer: N.np_nditer, np.choose: N.np_choose,
    np.where: N.np_where, np.full_like: N.np_like(np.full_like), np.zeros_like: N.np_like(np.zeros_like),
    np.ones_like: N.np_like(np.ones_like), np.empty_like: N.np_like(np.empty_like),
}
for _n in N_MATH:
    if hasattr(math, _n):
        SHIMS[getattr(math, _n)] = sx_math1(_n, getattr(math, _n))

# functions replaced by contract stubs for the current harness: qualified name -> callable
STUBS = {}


def call(f, /, *a, **k):
    if STUBS:
        q = getattr(f, '__sx_name__', None) or _qual(f)
        s = STUBS.get(q)
        if s is not None:
            return s(f, *a, **k)
    try:
        s = SHIMS.get(f)
    except TypeError:
        s = None
    if s is not None:
        if f is np.where and not (N.has_sym(a[0]) or any(N.has_sym(x) for x in a[1:])):
            r = np.where(*a, **k)  # floats may later be changed in place to symbolic values
            return N.sarr(r) if isinstance(r, np.ndarray) and r.dtype.kind == 'f' else r
        return s(*a, **k)
    if f is map or f is filter or f is functools.partial or (
            getattr(f, '__name__', '') in ('apply', 'map', 'agg', 'transform') and
            type(getattr(f, '__self__', None)).__module__.startswith('pandas')):
        a = tuple(_shim_fn(x) for x in a)
        if getattr(f, '__name__', '') in ('apply',) and a and callable(a[0]):
            pass
    if isinstance(f, np.ufunc) and not k and any(isinstance(x, pd.Series) for x in a) and any(
            isinstance(x, (Sym, SymBool, SymTD)) or isinstance(x, pd.Series) and x.dtype == object for x in a):
        first = next(x for x in a if isinstance(x, pd.Series))
        if all(not isinstance(x, pd.Series) or x.index.equals(first.index) for x in a):
            r = f(*[N.sarr(x.to_numpy()) if isinstance(x, pd.Series) else x for x in a])
            return tag_pd(pd.Series(list(r), index=first.index, name=first.name, dtype=object))
    if getattr(f, '__name__', '') == 'to_json' and isinstance(getattr(f, '__self__', None), (pd.DataFrame, pd.Series)):
        return sx_to_json(f.__self__, *a, **k)
    r = f(*a, **k)
    if type(r) is pd.Series and r.dtype.kind in 'fi' and getattr(f, '__name__', '') in ('apply', 'map', 'transform', 'where', 'mask'):
        was = getattr(f, '__self__', None)
        if isinstance(was, pd.Series) and was.dtype == object:
            return r.astype(object)  # all values happen to be known on this path: they still meet symbolic ones
    if type(r) is np.ndarray and r.dtype == object:
        return N.wrap(r)
    if type(r) in (pd.Series, pd.DataFrame):
        return tag_pd(r)
    return r


def _shim_fn(x):
    try:
        return SHIMS.get(x, x)
    except TypeError:
        return x


def _qual(f):
    m = getattr(f, '__module__', None)
    if isinstance(m, str) and m.startswith('gerabaldi'):
        return f'{m}.{getattr(f, "__qualname__", "")}'
    return None


# ------------------------------------------------------------------------------------------------------ the loader
class Xform(ast.NodeTransformer):
    KEEP = {'super', 'locals', 'globals', 'vars', 'dir', '__sx_enter__'}

    def __init__(self, mod):
        self.mod = mod
        self.stack = []

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in self.KEEP:
            return node
        return ast.copy_location(
            ast.Call(ast.Name('__sx_call__', ast.Load()), [node.func] + node.args, node.keywords), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node

        def ix(n):
            if isinstance(n, ast.Slice):
                none = ast.Constant(None)
                return ast.Call(ast.Name('__sx_slice__', ast.Load()), [n.lower or none, n.upper or none, n.step or none], [])
            if isinstance(n, ast.Tuple) and any(isinstance(e, ast.Slice) for e in n.elts):
                return ast.Tuple([ix(e) for e in n.elts], ast.Load())
            return n
        return ast.copy_location(ast.Call(ast.Name('__sx_get__', ast.Load()), [node.value, ix(node.slice)], []), node)

    def visit_AnnAssign(self, node):
        ann, node.annotation = node.annotation, ast.Constant(None)
        self.generic_visit(node)
        node.annotation = ann
        return node

    def _fn(self, node):
        self.stack.append(node.name)
        q = f'{self.mod}:{".".join(self.stack)}'
        self.generic_visit(node)
        body = node.body
        i = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
        call = ast.Expr(ast.Call(ast.Name('__sx_enter__', ast.Load()), [ast.Constant(q)], []))
        body.insert(i, ast.copy_location(call, node))
        self.stack.pop()
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        with open(self.path) as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = ast.fix_missing_locations(Xform(mod.__name__).visit(tree))
        mod.__dict__['__sx_call__'] = call
        mod.__dict__['__sx_enter__'] = enter
        mod.__dict__['__sx_get__'] = N.getitem
        mod.__dict__['__sx_slice__'] = slice
        exec(compile(tree, self.path, 'exec'), mod.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path, target=None):
        if name != 'gerabaldi' and not name.startswith('gerabaldi.'):
            return None
        base = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(base):
            p = os.path.join(base, '__init__.py')
            if os.path.exists(p):
                return importlib.util.spec_from_file_location(name, p, loader=Loader(p),
                                                              submodule_search_locations=[base])
        p = base + '.py'
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p))
        return None


def install(root='/repo'):
    sys.meta_path.insert(0, Finder(root))
