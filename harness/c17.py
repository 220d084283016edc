"""C17: random variables sample exactly the distribution they describe."""
import numpy as np

from harness import lib

BOUNDS = ('normal, gamma, uniform and deterministic variables with every parameter value, seed and name; up to 3 sample '
          'calls of 0 to 4 (also 130 and 260) draws with every parameter changed in between; two variables side by side; PyMC and Pyro forms')
STUBS = ('symbolic runs: a numpy generator returns location + scale times standard draws, which are arbitrary values '
         '(uninterpreted functions of seed and position); replays use the real numpy generators. PyMC, Pyro and torch are '
         'not installed and are recorded: their constructors build a term')
OUTSIDE = 'whether the standard draws of numpy follow the standard distributions (C26)'

KINDS = ('normal', 'gamma', 'uniform')


def params(cx, kind, i):
    if kind == 'normal':
        return dict(mu=cx.real(f'mu{i}'), sigma=cx.real(f'sigma{i}', 0.01, 100))
    if kind == 'gamma':
        return dict(alpha=cx.real(f'alpha{i}', 0.1, 50), beta=cx.real(f'beta{i}', 0.01, 100))
    a = cx.real(f'start{i}', -1000, 1000)
    return dict(start=a, stop=a + cx.real(f'width{i}', 0.01, 1000))


def cls(kind):
    from gerabaldi.models import random_vars as R
    return {'normal': R.Normal, 'gamma': R.Gamma, 'uniform': R.Uniform}[kind]


def value(kind, p, z):
    if kind == 'normal':
        return p['mu'] + p['sigma'] * z
    if kind == 'gamma':
        return z / p['beta']
    return p['start'] + (p['stop'] - p['start']) * z


def same(cx, label, got, want):
    if cx.check(f'{label}: a 1-D array of that many draws', isinstance(got, np.ndarray) and got.shape == (len(want),)):
        for i, w in enumerate(want):
            cx.eq(f'{label}: draw {i}', got[i], w, tol=1e-9)


def sampling(cx, kind, calls, seeded=True, big=False):
    """consecutive calls with changing parameters"""
    std = cx.rng()
    seed = cx.int('seed', 0, 2**31) if seeded else None
    p = params(cx, kind, 0)
    v = cls(kind)(**p, **({'test_seed': seed} if seeded else {}))
    ps = []
    got = []
    for i, n in enumerate(calls):
        if i:
            p = params(cx, kind, i)
            for k, x in p.items():
                setattr(v, k, x)
        ps.append(p)
        got.append(v.sample(n) if n != 'default' else v.sample())
    calls = [1 if n == 'default' else n for n in calls]
    want = std(kind, seed if seeded else ('fresh', 1), [(n, p.get('alpha')) for n, p in zip(calls, ps)])
    for i, (g, w, p) in enumerate(zip(got, want, ps)):
        if big and len(w) > 100:  # every 997th draw and the last ones
            if not cx.check(f'call {i}: a 1-D array of that many draws', isinstance(g, np.ndarray) and g.shape == (len(w),)):
                return
            keep = sorted({*range(0, len(w), 997), len(w) - 2, len(w) - 1})
            g, w = np.array([g[j] for j in keep], dtype=object), [w[j] for j in keep]
        same(cx, f'call {i}', g, [value(kind, p, z) for z in w])


def construct(cx, kind, how):
    """positional and default parameters"""
    std = cx.rng()
    seed = cx.int('seed', 0, 2**31)
    p = params(cx, kind, 0)
    if how == 'positional':
        v = cls(kind)(*p.values(), test_seed=seed)
    else:
        p = dict(zip(p, {'normal': (0, 1), 'gamma': (2, 2), 'uniform': (0, 1)}[kind]))
        v = cls(kind)(test_seed=seed)
    same(cx, 'draws', v.sample(2), [value(kind, p, z) for z in std(kind, seed, [(2, p.get('alpha'))])[0]])


def pair(cx, kind, seeded):
    """two variables: the same seed gives the same draws, otherwise they do not share a generator"""
    std = cx.rng()
    p = params(cx, kind, 0)
    if seeded:
        s = cx.int('seed', 0, 2**31)
        a, b = cls(kind)(**p, test_seed=s), cls(kind)(**p, test_seed=s)
        seeds = (s, s)
    else:
        a, b = cls(kind)(**p), cls(kind)(**p)
        seeds = (('fresh', 1), ('fresh', 2))
    ga, gb = [a.sample(2)], [b.sample(1)]
    ga.append(a.sample(1))
    gb.append(b.sample(2))
    wa = std(kind, seeds[0], [(2, p.get('alpha')), (1, p.get('alpha'))])
    wb = std(kind, seeds[1], [(1, p.get('alpha')), (2, p.get('alpha'))])
    for g, w, n in ((ga, wa, 'first'), (gb, wb, 'second')):
        for i in range(2):
            same(cx, f'{n} call {i}', g[i], [value(kind, p, z) for z in w[i]])


def centre(cx, op):
    """moving the centre of a normal variable"""
    std = cx.rng()
    p = params(cx, 'normal', 0)
    seed = cx.int('seed', 0, 2**31)
    v = cls('normal')(**p, test_seed=seed)
    cx.eq('centre', v.get_centre(), p['mu'])
    x = cx.real('x')
    if op == 'set':
        v.set_centre(x)
        m = x
    else:
        v.set_centre(x, np.add if op == 'add' else np.multiply)
        m = x + p['mu'] if op == 'add' else x * p['mu']
    cx.eq('new centre', v.get_centre(), m)
    w = std('normal', seed, [(3, None)])[0]
    same(cx, 'draws', v.sample(3), [m + p['sigma'] * z for z in w])


def deterministic(cx, n, seeded=False):
    from gerabaldi.models import Deterministic
    cx.rng()
    x = cx.real('x')
    v = Deterministic(x, **({'test_seed': cx.int('seed', 0, 2**31)} if seeded else {}))
    same(cx, 'value', v.sample(n), [x] * n)
    y = cx.real('y')
    v.value = y
    same(cx, 'changed value', v.sample(2), [y] * 2)
    same(cx, 'default', Deterministic().sample(), [0])
    cx.observe('v', v.sample(2))


def arg(node, names, i):
    n = names[i]
    if n in node.kw:
        return node.kw[n]
    return node.args[i] if i < len(node.args) else None


def meaning(cx, label, kind, node, fw):
    """(parameters) a framework term stands for, as this variable's own parameters"""
    full = {'pymc': 'pymc.', 'pyro': 'pyro.distributions.'}[fw] + kind.capitalize()
    if not cx.check(f'{label}: is a {full}', getattr(node, 'op', None) == full):
        return None
    names = {('pymc', 'normal'): ('name', 'mu', 'sigma'), ('pymc', 'gamma'): ('name', 'alpha', 'beta'),
             ('pymc', 'uniform'): ('name', 'lower', 'upper'), ('pyro', 'normal'): ('loc', 'scale'),
             ('pyro', 'gamma'): ('concentration', 'rate'), ('pyro', 'uniform'): ('low', 'high')}[fw, kind]
    out = [arg(node, names, i) for i in range(len(names))]
    if fw == 'pymc' and kind == 'normal' and out[2] is None and 'tau' in node.kw:
        out[2] = node.kw['tau'] ** -0.5
    if fw == 'pymc' and kind == 'gamma' and out[1] is None and 'mu' in node.kw:
        m, s = node.kw['mu'], node.kw['sigma']
        out[1:] = [m * m / (s * s), m / (s * s)]
    return out


def exported(cx, kind, fw, changes=1):
    std = cx.rng()  # noqa: F841
    seed = cx.int('seed', 0, 2**31)
    p = params(cx, kind, 0)
    v = cls(kind)(**p, name='var', test_seed=seed)
    for i in range(changes + 1):
        if i:
            p = params(cx, kind, i)
            for k, x in p.items():
                setattr(v, k, x)
        node = v.get_cbi_form(fw) if (fw, i) != ('pymc', 1) else v.get_cbi_form()
        if fw == 'pyro':
            if not cx.check('a named sample', node.op == 'pyro.sample' and arg(node, ('name', 'fn'), 0) == 'var'):
                return
            got = meaning(cx, f'form {i}', kind, arg(node, ('name', 'fn'), 1), fw)
        else:
            got = meaning(cx, f'form {i}', kind, node, fw)
            if got:
                cx.check('name', got[0] == 'var')
                cx.check('not observed', node.kw.get('observed') is None)
                got = got[1:]
        if got is None:
            return
        for k, g in zip(p, got):
            cx.eq(f'form {i}: {k}', g, p[k], tol=1e-9)
        w = std(kind, seed, [(2, p.get('alpha'))])[0] if i == 0 else None
        if w is not None:  # exporting takes no draws and changes nothing
            same(cx, 'draws after export', v.sample(2), [value(kind, p, z) for z in w])
    o, e = cx.outcome(lambda: v.get_cbi_form('stan'))
    cx.check('unknown framework', o == 'raise' and isinstance(e, NotImplementedError))


HARNESS = {
    'sampling': dict(fn=sampling, configs=lambda t: [
        dict(kind=k, calls=c, seeded=s) for k in KINDS for c, s in (((3,), True), ((1, 2), True), ((2, 'default', 2), False),
                                                                    ((0, 4), True), (('default',), True), ((130, 1), True),
                                                                    ((1, 260), False))]
        + [dict(kind='normal', calls=(5000,), big=True), dict(kind='gamma', calls=(2, 20000), big=True),
           dict(kind='uniform', calls=(70000, 1), big=True)]),
    'construct': dict(fn=construct, configs=lambda t: [dict(kind=k, how=h) for k in KINDS for h in ('positional', 'default')]),
    'pair': dict(fn=pair, configs=lambda t: [dict(kind=k, seeded=s) for k in KINDS for s in (True, False)]),
    'centre': dict(fn=centre, configs=lambda t: [dict(op=o) for o in ('set', 'add', 'mul')]),
    'deterministic': dict(fn=deterministic, configs=lambda t: [dict(n=1), dict(n=4), dict(n=130), dict(n=0), dict(n=3, seeded=True)]),
    'exported': dict(fn=exported, configs=lambda t: [dict(kind=k, fw=f) for k in KINDS for f in ('pymc', 'pyro')]),
}
