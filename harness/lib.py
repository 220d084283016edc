"""Shared harness parts: the minimiser contract, report access, inverse of monotone equations."""
import numpy as np

UNIT_US = {'days': 86400 * 10**6, 'd': 86400 * 10**6, 'hours': 3600 * 10**6, 'h': 3600 * 10**6,
           'seconds': 10**6, 's': 10**6, 'milliseconds': 1000, 'ms': 1000, 'microseconds': 1, 'us': 1}
HOUR = 3600 * 10**6

MINIMISE_CONTRACT = (
    'gerabaldi.math.minimize is replaced (symbolic runs only) by its contract: the exact minimiser of |g| on the given '
    'bounds for a monotone g (the root if there is one, otherwise the better end, the upper end when |g| is flat), off by '
    'the requested precision, or what the iteration limit allows at best, if that is coarser than 10^-4 decades; the '
    'contract is checked on the real minimiser in harness "minimiser" (bounded unrolling) and exercised by every replay')


def stub_minimise(cx):
    """install the contract of the minimiser for this path"""
    if not cx.symbolic:
        return
    C, N = cx.C, cx.N
    z3 = C.z3
    count = [0]

    def fn(real, func, extra_args, bounds, precision=1e-5, mach_eps=2**-53, maxiter=20, log_gold=False):
        first = list(extra_args.values())[0]
        shape = np.shape(first)
        coarse = 0
        if all(C.is_pynum(x) for x in (*bounds, precision, maxiter)):
            width = float(np.log10(bounds[1] / bounds[0])) if log_gold else float(bounds[1] - bounds[0])
            coarse = float(max(precision, width * 0.618**maxiter))
            coarse = coarse if coarse > 1e-4 else 0
        k = count[0]
        count[0] += 1

        def ev(t):
            r = func(t, **extra_args)
            if np.shape(r) != shape:
                r = np.broadcast_to(N.sarr(r).view(np.ndarray), shape)
            return N.sarr(r).view(np.ndarray)
        flo = ev(N.np_full(shape, bounds[0]))
        fhi = ev(N.np_full(shape, bounds[1]))
        mid = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            mid[ix] = C.Sym(((None, cx.en.fresh(f'root{k}{list(ix)}', C.REAL)),))
        fmid = None
        out = np.empty(shape, dtype=object)
        cases = {}
        for ix in np.ndindex(*shape):
            a, b = signed(cx, flo[ix]), signed(cx, fhi[ix])
            cross = (a < 0) & (b > 0) | (a > 0) & (b < 0)
            if bool(cross):
                cases[ix] = 'root'
            elif bool(C.compare('lt', C.absv(a), C.absv(b))):
                cases[ix] = 'lo'
            else:
                cases[ix] = 'hi'
        if 'root' in cases.values():
            pts = np.empty(shape, dtype=object)
            for ix in np.ndindex(*shape):
                if cases[ix] == 'root':
                    e = mid[ix].e
                    cx.en.add(z3.And(e > C.num(float(bounds[0])) if C.is_pynum(bounds[0]) else e > C._single(bounds[0]),
                                     e < C.num(float(bounds[1])) if C.is_pynum(bounds[1]) else e < C._single(bounds[1])))
                    pts[ix] = mid[ix]
                else:
                    pts[ix] = bounds[0]
            fmid = ev(pts.view(N.SArr))
        for ix in np.ndindex(*shape):
            if cases[ix] == 'root':
                g = signed(cx, fmid[ix])
                cx.en.assume(C.compare('eq', g, 0))
                out[ix] = mid[ix]
                if coarse:
                    e, got = mid[ix].e, cx.en.fresh(f'found{k}{list(ix)}', C.REAL)
                    lo, hi = (e / C.num(10**coarse), e * C.num(10**coarse)) if log_gold else (e - C.num(coarse), e + C.num(coarse))
                    low, high = (C.num(float(x)) if C.is_pynum(x) else C._single(x) for x in bounds)
                    cx.en.add(z3.And(got >= lo, got <= hi, got >= low, got <= high))
                    out[ix] = C.Sym(((None, got),))
            else:
                out[ix] = bounds[0] if cases[ix] == 'lo' else bounds[1]
        return out.view(N.SArr) if shape else out[()]
    cx.stub('gerabaldi.math.minimize.minimize', fn)


def signed(cx, r):
    """the signed value whose magnitude the residual is"""
    C = cx.C
    if isinstance(r, C.Sym):
        if r.meta and r.meta[0] == 'abs':
            return r.meta[1]
        raise C.Unsupported('residual is not of the form |g|')
    if C.is_pynum(r):
        return C.const(C.py(r))
    raise C.Unsupported('residual')


def inverse(cx, name, fn, target, hi, **args):
    """the time at which fn(time) equals target, given that fn grows from below target at 0 to above it at `hi`
    (assumed in symbolic runs)"""
    if cx.symbolic:
        C = cx.C
        t = C.Sym(((None, cx.en.fresh(name, C.REAL)),))
        cx.en.add(C.z3.And(t.e >= 0, t.e <= C._single(hi) if not C.is_pynum(hi) else t.e <= C.num(hi)))
        cx.assume(C.compare('eq', fn(**{'time': t, **args}), target))
        return t
    lo, up = 0.0, float(hi)
    if fn(time=lo, **args) >= target:
        return 0.0
    for _ in range(300):
        m = (lo + up) / 2
        if fn(time=m, **args) < target:
            lo = m
        else:
            up = m
    return (lo + up) / 2


def hours_in(unit, td_us):
    return td_us / UNIT_US[unit or 'h']


def rows(rep, prm, step=None):
    """measurement rows of one parameter (and step) as tuples (lot, chip, device, time, value), report order"""
    m = rep.measurements
    out = []
    cols = [m[c].tolist() for c in ('param', 'step #', 'lot #', 'chip #', 'device #', 'time', 'measured')]
    for p, s, lo, c, d, t, v in zip(*cols):
        if p == prm and (step is None or s == step):
            out.append((lo, c, d, t, v))
    return out


def vals(rep, prm, step, shape, cx=None):
    """values by label as an array; None where there is no row"""
    out = np.empty(shape, dtype=object)
    for lo, c, d, _, v in rows(rep, prm, step):
        out[int(lo), int(c), int(d)] = v
    return out


def us(cx, name, lo=1, hi=10**15):
    """a positive whole number of microseconds as (timedelta, exact number)"""
    td = cx.td(name, lo, hi)
    n = cx.int(name + '.us', lo, hi)
    return td, (n * 1.0)


def const_lv(cx, v):
    from gerabaldi.models.devices import LatentVar
    return LatentVar(deter_val=v)
