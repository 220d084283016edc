"""Numpy arrays of symbolic values: an object-dtype ndarray subclass whose ufuncs and functions stay symbolic."""
from __future__ import annotations

import math
import numpy as np
import z3

from . import core as C
from .core import Sym, SymBool, SymTD, Unsupported

SYM = (Sym, SymBool, SymTD)


def has_sym(a):
    """does a (nested) value contain symbolic elements"""
    if isinstance(a, SYM):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object and any(isinstance(x, SYM) for x in a.flat)
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    return False


def wrap(a):
    """plain object array holding symbolic numbers -> SArr"""
    if type(a) is np.ndarray and a.dtype == object and a.size and any(isinstance(x, SYM) for x in a.flat):
        return a.view(SArr)
    return a


def sarr(x):
    """anything array-like -> SArr"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, SYM):
        r = np.empty((), dtype=object)
        r[()] = x
        return r.view(SArr)
    a = np.asarray(x)
    if a.dtype != object:
        a = a.astype(object)
    return a.view(SArr)


def _f(x):
    return C.py(x)


def _bool1(x):
    x = _f(x)
    return x if isinstance(x, SymBool) else SymBool(C.tobool(x)) if isinstance(x, (Sym, SymTD)) else bool(x)


def _not(x):
    x = _bool1(x)
    return ~x if isinstance(x, SymBool) else not x


def _and(a, b):
    a, b = _bool1(a), _bool1(b)
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return SymBool(z3.simplify(z3.And(C.tobool(a), C.tobool(b))))
    return a and b


def _or(a, b):
    a, b = _bool1(a), _bool1(b)
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return SymBool(z3.simplify(z3.Or(C.tobool(a), C.tobool(b))))
    return a or b


def _xor(a, b):
    a, b = _bool1(a), _bool1(b)
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return SymBool(z3.simplify(z3.Xor(C.tobool(a), C.tobool(b))))
    return a != b


def _inv(a):
    if isinstance(_f(a), (bool, SymBool)):
        return _not(a)
    raise Unsupported('bitwise invert of a number')


def _ar(op, pyop):
    def f(a, b):
        a, b = _f(a), _f(b)
        if isinstance(a, SymTD) or isinstance(b, SymTD) or C.is_td(a) or C.is_td(b):
            return pyop(a, b)
        if isinstance(a, SYM) or isinstance(b, SYM):
            r = C.arith(op, a, b, True)
            if r is NotImplemented:
                raise TypeError(f'unsupported operand type(s) for {op}')
            return r
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            raise TypeError(f'unsupported operand type(s) for {op}')
        with np.errstate(all='ignore'):
            return C.py(pyop(np.float64(a) if isinstance(a, float) or op == 'div' else a, b))
    return f


def _cmp(op, pyop):
    def f(a, b):
        a, b = _f(a), _f(b)
        if isinstance(a, SYM) or isinstance(b, SYM):
            if isinstance(a, SymTD) or isinstance(b, SymTD):
                return pyop(a, b)
            r = C.compare(op, a, b)
            if r is NotImplemented:
                return {'eq': False, 'ne': True}[op]
            return bool_if_const(r)
        return bool(pyop(a, b))
    return f


def bool_if_const(b):
    if z3.is_true(b.e):
        return True
    if z3.is_false(b.e):
        return False
    return b


def _special_pred(p):
    def f(a):
        a = _f(a)
        if isinstance(a, Sym):
            gs = [C.guard(g) for g, v in a.lv if p(v if C.is_special(v) else 0.0)]
            if not gs:
                return False
            return bool_if_const(SymBool(z3.simplify(z3.Or(*gs))))
        if isinstance(a, SYM):
            return p(0.0)
        return p(float(a))
    return f


def _isnan(a):
    return _special_pred(lambda v: math.isnan(v))(a)


def _max(a, b):
    return C.ite(SymBool(C.tobool(C.compare('ge', a, b))), a, b) if has_sym([a, b]) else max(a, b)


def _min(a, b):
    return C.ite(SymBool(C.tobool(C.compare('le', a, b))), a, b) if has_sym([a, b]) else min(a, b)


def _rint(a):
    return C.rounded(a, 0) if isinstance(a, Sym) else float(np.rint(a))


def _floor(a):
    r = C.floor(a)
    return Sym(((None, z3.ToReal(r.lv[0][1])),)) if isinstance(r, Sym) else float(r)


def _ceil(a):
    r = C.ceil(a)
    return Sym(((None, z3.ToReal(r.lv[0][1])),)) if isinstance(r, Sym) else float(r)


import operator as op  # noqa: E402

TABLE = {
    np.add: _ar('add', op.add), np.subtract: _ar('sub', op.sub), np.multiply: _ar('mul', op.mul),
    np.true_divide: _ar('div', op.truediv), np.floor_divide: _ar('floordiv', op.floordiv),
    np.remainder: _ar('mod', op.mod), np.power: _ar('pow', op.pow), np.float_power: _ar('pow', op.pow),
    np.less: _cmp('lt', op.lt), np.less_equal: _cmp('le', op.le), np.greater: _cmp('gt', op.gt),
    np.greater_equal: _cmp('ge', op.ge), np.equal: _cmp('eq', op.eq), np.not_equal: _cmp('ne', op.ne),
    np.negative: lambda a: C.neg(a) if not C.is_td(a) else -a, np.positive: lambda a: a,
    np.absolute: lambda a: C.absv(a) if not C.is_td(a) else abs(a), np.fabs: C.absv, np.square: C.square,
    np.sqrt: lambda a: C.special('sqrt', a), np.exp: lambda a: C.special('exp', a),
    np.log: lambda a: C.special('log', a), np.log10: lambda a: C.special('log10', a),
    np.log2: lambda a: C.special('log2', a), np.expm1: lambda a: C.special('expm1', a),
    np.log1p: lambda a: C.special('log1p', a), np.tanh: lambda a: C.special('tanh', a),
    np.sin: lambda a: C.special('sin', a), np.cos: lambda a: C.special('cos', a),
    np.logical_and: _and, np.logical_or: _or, np.logical_not: _not, np.logical_xor: _xor,
    np.bitwise_and: _and, np.bitwise_or: _or, np.bitwise_xor: _xor, np.invert: _inv,
    np.maximum: _max, np.minimum: _min, np.fmax: _max, np.fmin: _min,
    np.isinf: _special_pred(math.isinf), np.isnan: _isnan, np.isfinite: _special_pred(math.isfinite),
    np.sign: C.sign, np.rint: _rint, np.floor: _floor, np.ceil: _ceil,
    np.reciprocal: lambda a: C.arith('div', 1.0, a), np.signbit: lambda a: C.compare('lt', a, 0),
    np.copysign: lambda a, b: C.ite(SymBool(C.tobool(C.compare('lt', b, 0))), C.neg(C.absv(a)), C.absv(a)),
    np.heaviside: lambda a, h: C.ite(SymBool(C.tobool(C.compare('lt', a, 0))), 0.0, C.ite(
        SymBool(C.tobool(C.compare('gt', a, 0))), 1.0, h)),
    np.conjugate: lambda a: a, np.trunc: lambda a: C.trunc(a) * 1.0,
}


def elementwise(fn, *arrs):
    arrs = [sarr(a).view(np.ndarray) for a in arrs]
    bc = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    out = np.empty(bc[0].shape, dtype=object)
    for ix in np.ndindex(*bc[0].shape):
        out[ix] = fn(*[b[ix] for b in bc])
    return out


def finish(out):
    if out.shape == ():
        return out[()]
    return out.view(SArr)


def do_ufunc(ufunc, method, inputs, kw):
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    dtype = kw.pop('dtype', None)
    if dtype is not None and np.dtype(dtype) not in (np.dtype(float), np.dtype(object), np.dtype(bool)):
        raise Unsupported('ufunc dtype=')
    kw.pop('casting', None)
    fn = TABLE.get(ufunc)
    if fn is None:
        raise Unsupported(f'ufunc {ufunc.__name__}')
    if method == '__call__':
        res = elementwise(fn, *inputs)
        if where is not True:
            if out is None:
                raise Unsupported('ufunc where= without out=')
            base = np.broadcast_to(sarr(out[0]).view(np.ndarray), res.shape)
            sel = np.empty(res.shape, dtype=object)
            w = np.broadcast_to(sarr(where).view(np.ndarray), res.shape)
            for ix in np.ndindex(*res.shape):
                sel[ix] = C.ite(_bool1(w[ix]), res[ix], base[ix])
            res = sel
        if out is not None:
            o = out[0]
            if o.dtype != object:
                raise Unsupported('in-place operation on a numeric array')
            o.view(np.ndarray)[...] = res
            return o
        return finish(res)
    if method in ('reduce', 'accumulate'):
        a = sarr(inputs[0]).view(np.ndarray)
        axis = inputs[1] if len(inputs) > 1 else kw.pop('axis', 0)
        keep = kw.pop('keepdims', False)
        init = kw.pop('initial', None)
        if method == 'accumulate':
            r = np.frompyfunc(fn, 2, 1).accumulate(a, axis=axis)
        else:
            fo = np.frompyfunc(fn, 2, 1)
            ident = {np.add: 0, np.multiply: 1, np.logical_and: True, np.logical_or: False}.get(ufunc)
            if init is None and a.size == 0:
                init = ident
            if axis is None:
                flat = list(a.flat)
                acc = init
                for x in flat:
                    acc = x if acc is None else fn(acc, x)
                if ufunc in (np.logical_and, np.logical_or) and len(flat) == 1:
                    acc = _bool1(acc)
                r = np.empty((1,) * a.ndim if keep else (), dtype=object)
                r[...] = acc if not isinstance(acc, list) else None
                if r.shape == ():
                    return acc
            else:
                axes = axis if isinstance(axis, tuple) else (axis,)
                r = a
                for ax in sorted([x % a.ndim for x in axes], reverse=True):
                    r = fo.reduce(r, axis=ax, keepdims=keep)
                    if not isinstance(r, np.ndarray):
                        return r
        return finish(np.asarray(r, dtype=object))
    if method == 'outer':
        a, b = sarr(inputs[0]), sarr(inputs[1])
        return do_ufunc(ufunc, '__call__', (a.reshape(a.shape + (1,) * b.ndim), b), kw)
    raise Unsupported(f'ufunc method {method}')


class SArr(np.ndarray):
    __array_priority__ = 3000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        for i in inputs:
            if type(i).__name__ in ('Series', 'DataFrame', 'Index'):
                return NotImplemented
        return do_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        h = FUNCS.get(func)
        if h is not None:
            return h(*args, **kw)
        r = super().__array_function__(func, types, args, kw)
        return post(r)

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if arr.shape == ():
            return arr[()]
        return arr.view(SArr)

    def __getitem__(self, ix):
        ix = index(ix, self)
        r = super().__getitem__(ix)
        return r

    def __setitem__(self, ix, v):
        if isinstance(ix, np.ndarray) and ix.dtype == object and has_bool(ix):
            # masked assignment: merge instead of branching
            m = np.broadcast_to(ix.view(np.ndarray), self.shape)
            if isinstance(v, np.ndarray) and v.ndim > 0:
                ix = index(ix, self)
                super().__setitem__(ix, v)
                return
            if isinstance(v, np.ndarray):
                v = v[()]
            v = self._narrow(v)
            b = self.view(np.ndarray)
            for i in np.ndindex(*self.shape):
                b[i] = C.ite(_bool1(m[i]), v, b[i])
            return
        super().__setitem__(index(ix, self), self._narrow(v))

    def __array_finalize__(self, other):
        self._short = getattr(other, '_short', None)

    def _narrow(self, v):
        """what an array of a shorter float type keeps of a stored value"""
        if getattr(self, '_short', None) is None:
            return v
        if isinstance(v, np.ndarray):
            return cast(sarr(v), self._short) if v.size else v
        return C.lossy(_f(v), {4: 24, 2: 11}[np.dtype(self._short).itemsize]) if isinstance(v, SYM) else np.dtype(self._short).type(v)

    # methods that would leave the symbolic domain or force branches
    def astype(self, dtype, *a, **k):
        return cast(self, dtype).copy()

    def all(self, axis=None, out=None, keepdims=False):
        return np_all(self, axis, out, keepdims)

    def any(self, axis=None, out=None, keepdims=False):
        return np_any(self, axis, out, keepdims)

    def round(self, decimals=0, out=None):
        return np_round(self, decimals)

    def clip(self, min=None, max=None, out=None, **k):
        return np_clip(self, min, max, out, **k)

    def max(self, axis=None, out=None, **k):
        return reduction(np.maximum, self, axis, out, **k)

    def min(self, axis=None, out=None, **k):
        return reduction(np.minimum, self, axis, out, **k)

    def sum(self, axis=None, dtype=None, out=None, **k):
        return reduction(np.add, self, axis, out, dtype, **k)

    def prod(self, axis=None, dtype=None, out=None, **k):
        return reduction(np.multiply, self, axis, out, dtype, **k)

    def mean(self, axis=None, dtype=None, out=None, **k):
        ax = range(self.ndim) if axis is None else axis if isinstance(axis, tuple) else (axis,)
        n = 1
        for i in ax:
            n *= self.shape[i]
        return self.sum(axis, dtype, out, **k) / n

    def cumsum(self, axis=None, dtype=None, out=None):
        if out is not None or dtype is not None:
            raise Unsupported('cumsum out=')
        a = self.reshape(-1) if axis is None else self
        return do_ufunc(np.add, 'accumulate', (a,), {'axis': axis or 0})

    def item(self, *a):
        if not a and self.size == 1:
            return self.flat[0]
        return self.view(np.ndarray).item(*a)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def nonzero(self):
        return index_mask(self).nonzero()

    def __bool__(self):
        if self.size == 1:
            return bool(_bool1(self.flat[0]))
        return bool(self.view(np.ndarray))

    def __float__(self):
        raise Unsupported('float() of a symbolic array')

    def __abs__(self):
        return do_ufunc(np.absolute, '__call__', (self,), {})

    def __repr__(self):
        return f'SArr(shape={self.shape})'


def has_bool(a):
    return a.size > 0 and all(isinstance(x, (bool, np.bool_, SymBool)) for x in a.flat)


def index_mask(a):
    m = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(*a.shape):
        m[i] = bool(_bool1(a.view(np.ndarray)[i]))
    return m


def index(ix, arr):
    if isinstance(ix, np.ndarray) and ix.dtype == object:
        if has_bool(ix):
            return index_mask(ix)  # branches on every element
        return np.vectorize(lambda v: int(v), otypes=[int])(ix.view(np.ndarray))
    if isinstance(ix, tuple):
        return tuple(index(x, arr) for x in ix)
    if isinstance(ix, SymBool):
        return bool(ix)
    return ix


def post(r):
    if isinstance(r, np.ndarray):
        return wrap(r) if not isinstance(r, SArr) else r
    if isinstance(r, list):
        return [post(x) for x in r]
    if isinstance(r, tuple):
        return tuple(post(x) for x in r)
    return r


# ------------------------------------------------------------------------------------------------- numpy functions
def np_where(c, *ab):
    if not ab:
        return index_mask(sarr(c)).nonzero()
    a, b = ab
    return finish(elementwise(lambda x, p, q: C.ite(_bool1(x), _f(p), _f(q)), c, a, b))


def cast(a, dtype):
    """elements converted to a number type"""
    d = np.dtype(dtype)
    if d.kind == 'O' or d.kind == 'f' and d.itemsize >= 8:
        return a
    if d.kind == 'f':
        bits = {4: 24, 2: 11}[d.itemsize]
        return elementwise(lambda x: C.lossy(_f(x), bits), a).view(SArr)
    if d.kind in 'iu':
        return elementwise(lambda x: C.trunc(x), a).view(SArr)
    if d.kind == 'b':
        return elementwise(_bool1, a).view(SArr)
    raise Unsupported(f'astype {dtype}')


def reduction(ufunc, a, axis=None, out=None, dtype=None, keepdims=False, **k):
    if out is not None or (dtype is not None and np.dtype(dtype) not in (np.dtype(float), np.dtype(object))) or k:
        raise Unsupported('options of a reduction')
    return do_ufunc(ufunc, 'reduce', (sarr(a),), {'axis': axis, 'keepdims': keepdims})


def np_all(a, axis=None, out=None, keepdims=False, **k):
    if out is not None or k:
        raise Unsupported('options of a reduction')
    if axis is None and not keepdims:
        r = True
        for x in sarr(a).flat:
            r = _and(r, x)
        return r
    return do_ufunc(np.logical_and, 'reduce', (elementwise(_bool1, a).view(SArr),), {'axis': axis, 'keepdims': keepdims})


def np_any(a, axis=None, out=None, keepdims=False, **k):
    if out is not None or k:
        raise Unsupported('options of a reduction')
    if axis is None and not keepdims:
        r = False
        for x in sarr(a).flat:
            r = _or(r, x)
        return r
    return do_ufunc(np.logical_or, 'reduce', (elementwise(_bool1, a).view(SArr),), {'axis': axis, 'keepdims': keepdims})


def np_round(a, decimals=0, out=None):
    if out is not None:
        raise Unsupported('round out=')
    return finish(elementwise(lambda x: C.rounded(x, decimals if isinstance(decimals, (int, Sym)) else int(decimals)), a))


def np_clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.pop('min', a_min)
    a_max = k.pop('max', a_max)
    if out is not None or k:
        raise Unsupported('options of clip')
    r = sarr(a)
    if a_min is not None:
        r = do_ufunc(np.maximum, '__call__', (r, a_min), {})
    if a_max is not None:
        r = do_ufunc(np.minimum, '__call__', (r, a_max), {})
    return r


def is_float_dtype(dtype):
    return dtype is float or (dtype is not None and np.dtype(dtype).kind == 'f')


def as_obj(a):
    return np.asarray(a).astype(object).view(SArr)


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(x) for x in s)
    return int(s)


def np_full(shape, fill_value, dtype=None, **k):
    shape = _shape(shape)
    if has_sym(fill_value):
        r = np.empty(shape, dtype=object)
        if isinstance(fill_value, np.ndarray):
            r[...] = fill_value.view(np.ndarray)
        elif isinstance(fill_value, (list, tuple)):
            r[...] = np.array(fill_value, dtype=object)
        else:
            r.fill(fill_value)
        r = r.view(SArr)
        return r if dtype is None else cast(r, dtype)
    return maybe(np.full(shape, fill_value, dtype=dtype))


def maybe(a):
    """float arrays become object arrays so that symbolic values can be stored in them later"""
    if type(a) is np.ndarray and a.dtype.kind == 'f':
        r = as_obj(a)
        if a.dtype.itemsize < 8:
            r._short = a.dtype
        return r
    return a


def np_create(real):
    def f(shape, dtype=float, *a, **k):
        r = real(_shape(shape), dtype, *a, **k)
        if r.dtype.kind == 'f':
            r[...] = 1.0 if real is np.ones else 0.0
        return maybe(r)
    return f


def np_like(real):
    def f(proto, *a, dtype=None, **k):
        shape = np.shape(proto)
        if real is np.full_like:
            fill = a[0] if a else k.pop('fill_value')
            d = a[1] if len(a) > 1 else dtype
        else:
            fill = {np.ones_like: 1, np.zeros_like: 0, np.empty_like: 0}[real]
            d = a[0] if a else dtype
        if d is None:
            if isinstance(proto, np.ndarray) and proto.dtype != object and proto.dtype.kind in 'iub':
                if has_sym(fill):
                    return elementwise(lambda x: C.trunc(x), np_full(shape, fill)).view(SArr)
                return np.full(shape, fill, dtype=proto.dtype)
            if not isinstance(proto, np.ndarray) and isinstance(C.py(proto), int):
                return np.full(shape, fill, dtype=int)
            if not has_sym(fill):
                fill = np.asarray(fill, dtype=float)
            return np_full(shape, fill)
        if np.dtype(d).kind == 'f':
            return np_full(shape, fill if has_sym(fill) else np.asarray(fill, dtype=d), dtype=d)
        if np.dtype(d) == object:
            return np_full(shape, fill)
        return np_full(shape, fill, dtype=d)
    return f


def np_array(real):
    def f(obj, dtype=None, *a, **k):
        if has_sym(obj) or isinstance(obj, SArr):
            kk = {x: y for x, y in k.items() if x in ('ndmin', 'copy')}
            if isinstance(obj, np.ndarray):
                r = real(obj.view(np.ndarray), dtype=object, **({} if real is np.asarray else kk))
            else:
                r = real([x.view(np.ndarray) if isinstance(x, SArr) else x for x in obj]
                         if isinstance(obj, (list, tuple)) else obj, dtype=object)
            r = r.view(SArr)
            return r if dtype is None else cast(r, dtype)
        r = real(obj, dtype, *a, **k) if dtype is not None or a else real(obj, **k)
        return maybe(r) if real is np.array and r.ndim else r
    return f


def getitem(obj, ix):
    """obj[ix] where a concrete array may be selected from with symbolic indices or masks"""
    if type(obj) is np.ndarray and (
            isinstance(ix, SArr) or isinstance(ix, tuple) and any(isinstance(x, SArr) for x in ix)):
        return sarr(obj)[ix]
    return obj[ix]


def np_fromiter(it, dtype, *a, **k):
    return np_array(np.array)(list(it), dtype=dtype)


def np_expand_dims(a, axis):
    return sarr(np.expand_dims(sarr(a).view(np.ndarray), axis)).view(SArr)


def np_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return np_all(elementwise(lambda x, y: C.compare('le', C.absv(C.arith('sub', x, y)),
                                                     C.arith('add', atol, C.arith('mul', rtol, C.absv(y)))), a, b))


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return finish(elementwise(lambda x, y: C.compare('le', C.absv(C.arith('sub', x, y)),
                                                     C.arith('add', atol, C.arith('mul', rtol, C.absv(y)))), a, b))


def np_copyto(dst, src, casting='same_kind', where=True):
    dst[...] = src if where is True else np_where(where, src, dst)


def np_select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = np_where(c, v, r)
    return r


def np_choose(a, choices, out=None, mode='raise'):
    r = choices[0]
    for i, c in enumerate(choices[1:], 1):
        r = np_where(sarr(a) == i if not has_bool(sarr(a)) else a, c, r)
    return r


def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = float(np.finfo(float).max)
    y = np_where(np.isnan(x), nan, x)
    return np_where(np.isinf(y), np_where(y > 0, big if posinf is None else posinf, -big if neginf is None else neginf), y)


def np_nditer(op, flags=None, op_flags=None, *a, **k):
    ops = op if isinstance(op, (list, tuple)) else [op]
    if any(isinstance(x, np.ndarray) and x.dtype == object for x in ops):
        flags = [*(flags or []), 'refs_ok']
        op = [x.view(np.ndarray) if isinstance(x, SArr) else x for x in ops] if isinstance(op, (list, tuple)) else (
            op.view(np.ndarray))
    return np.nditer(op, *([flags] if flags is not None or op_flags is not None or a else []),
                     *([op_flags] if op_flags is not None or a else []), *a, **k)


def np_putmask(a, mask, values):
    a[...] = np_where(mask, values, a)


def np_sum(a, axis=None, dtype=None, out=None, **k):
    return reduction(np.add, a, axis, out, dtype, **k)


def np_prod(a, axis=None, dtype=None, out=None, **k):
    return reduction(np.multiply, a, axis, out, dtype, **k)


def np_vectorize(*a, **k):
    k.pop('otypes', None)
    base = np.vectorize(*a, otypes=[object], **k)

    def run(*args, **kw):
        r = base(*[x.view(np.ndarray) if isinstance(x, SArr) else x for x in args], **kw)
        return post(r) if isinstance(r, np.ndarray) and r.shape != () else (r[()] if isinstance(r, np.ndarray) else r)
    return run


def np_array_equal(a, b, **k):
    if np.shape(a) != np.shape(b):
        return False
    return np_all(elementwise(_cmp('eq', op.eq), a, b))


def np_mean(a, axis=None, dtype=None, out=None, **k):
    return sarr(a).mean(axis, dtype, out, **k)


def np_max(a, axis=None, out=None, **k):
    return reduction(np.maximum, a, axis, out, **k)


def np_min(a, axis=None, out=None, **k):
    return reduction(np.minimum, a, axis, out, **k)


def np_cumsum(a, axis=None, dtype=None, out=None):
    return sarr(a).cumsum(axis, dtype, out)


FUNCS = {
    np.where: np_where, np.all: np_all, np.any: np_any, np.round: np_round, np.around: np_round, np.clip: np_clip,
    np.full_like: np_like(np.full_like), np.zeros_like: np_like(np.zeros_like), np.ones_like: np_like(np.ones_like),
    np.empty_like: np_like(np.empty_like), np.allclose: np_allclose, np.isclose: np_isclose, np.copyto: np_copyto,
    np.select: np_select, np.putmask: np_putmask, np.sum: np_sum, np.prod: np_prod, np.array_equal: np_array_equal,
    np.mean: np_mean, np.max: np_max, np.amax: np_max, np.min: np_min, np.amin: np_min,
    np.cumsum: np_cumsum, np.choose: np_choose, np.nan_to_num: np_nan_to_num,
}


# scalars take part in numpy functions as well
def _sym_ufunc(self, ufunc, method, *inputs, **kw):
    for i in inputs:
        if type(i).__name__ in ('Series', 'DataFrame', 'Index'):
            return NotImplemented
    return do_ufunc(ufunc, method, inputs, kw)


def _sym_func(self, func, types, args, kw):
    h = FUNCS.get(func)
    if h is None and func in STRUCT:
        return structural(func, args, kw)
    if h is None:
        raise Unsupported(f'numpy function {func.__name__} on a symbolic scalar')
    return h(*args, **kw)


# functions that only move elements around
STRUCT = {np.repeat, np.tile, np.resize, np.broadcast_to, np.atleast_1d, np.atleast_2d, np.atleast_3d, np.reshape,
          np.ravel, np.squeeze, np.expand_dims, np.concatenate, np.stack, np.hstack, np.vstack, np.transpose, np.append,
          np.moveaxis, np.swapaxes, np.copy, np.insert, np.flip}


def structural(func, args, kw):
    def un(x):
        if isinstance(x, SYM):
            r = np.empty((), dtype=object)
            r[()] = x
            return r
        if isinstance(x, SArr):
            return x.view(np.ndarray)
        if isinstance(x, (list, tuple)) and has_sym(x):
            return type(x)(un(y) for y in x)
        return x
    return post(func(*[un(a) for a in args], **{k: un(v) for k, v in kw.items()}))


for _c in (Sym, SymBool, SymTD):
    _c.__array_ufunc__ = _sym_ufunc
    _c.__array_function__ = _sym_func
