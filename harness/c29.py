"""C29: the CBI export of a model is its own equation over its exported latents and the observed conditions."""
import numpy as np

from harness.c17 import arg
from harness.c22 import MIX, Var

BOUNDS = ('models of each kind with 0 to 3 latent variables of 1 to 3 layers, 0 to 2 observed conditions (numbers and arrays of up to 3 '
          'values), every distribution parameter, deterministic value and observed value; 1 to 2 exports, sampling in between, two models side '
          'by side; equations with keyword arguments in any order')
STUBS = 'PyMC, Pyro and torch are recorded as a term as in C22; the equation is an arbitrary function that records what it is given'
OUTSIDE = 'what PyMC does with the exported term; the Pyro form of a whole model, which depends on torch tensors'

SPECS = {'k': (dict(dev='normal'), 'scaling', False), 'c': (MIX, 'offset', False),
         'e': (dict(dev='normal', lot='normal'), 'scaling', True)}


def eqn(order, log, result):
    """a function with exactly these named arguments"""
    ns = {}
    exec(f"def f({', '.join(order)}):\n    log.append(dict({', '.join(f'{a}={a}' for a in order)}))\n    return result[len(log) - 1]",
         dict(log=log, result=result), ns)
    return ns['f']


def kind_of(kind, f, name, lv):
    from gerabaldi.models import DegMechMdl, FailMechMdl, InitValMdl, CondShiftMdl
    from gerabaldi.models.devices import LatentMdl
    if kind == 'init':
        return InitValMdl(f, name, **lv)
    if kind == 'cond':
        return CondShiftMdl(f, name, **lv)
    return {'deg': DegMechMdl, 'fail': FailMechMdl, 'plain': LatentMdl}[kind](f, mdl_name=name, **lv)


def observation(cx, tag, how):
    return cx.real(tag) if how == 'number' else cx.arr(tag, (how,))


def alike(cx, label, got, want):
    if isinstance(want, np.ndarray):
        if cx.check(f'{label}: as many values', np.shape(got) == want.shape):
            for i in np.ndindex(*want.shape):
                cx.eq(f'{label} {i}', got[i], want[i])
    else:
        cx.eq(label, got, want)


def export(cx, kind, latents, conds, fw='pymc', times=1, order=None, sample=False, default=False, name='drop', extra=False):
    vs = {n: Var(cx, *SPECS[n], name=None if n == 'k' else n + '_own', base=10 * (i + 1)) for i, n in enumerate(latents)}
    log, result = [], [cx.real(f'result {i}') for i in range(times)]
    f = eqn(order or [*latents, *conds], log, result)
    mdl = kind_of(kind, f, name, {n: v.lv for n, v in vs.items()})
    if 'k' in vs:  # unnamed: takes the name of the argument
        vs['k'].name = 'k'
    obs = {}
    for c, how in conds.items():
        obs[c] = observation(cx, c, how)
        if c == next(iter(conds)):
            obs[name] = observation(cx, 'seen', 3)
    if not conds:
        obs[name] = observation(cx, 'seen', 2)
    keep = dict(obs)
    if sample:
        for n, v in vs.items():
            v.check_sampling(f'{n} before', (1, 1, 2))
    for i in range(times):
        node = mdl.export_to_cbi(observed=obs) if default else mdl.export_to_cbi(fw, obs)
        if not cx.check(f'export {i}: the equation is used once', len(log) == i + 1):
            return
        got = log[i]
        for c in conds:
            alike(cx, f'export {i}: observed {c}', got[c], keep[c])
        for n, v in vs.items():
            v.check_term(f'export {i}: {n}', got[n], fw)
        if cx.check(f'export {i}: a normal distribution', getattr(node, 'op', None) == 'pymc.Normal'):
            cx.check(f'export {i}: under its name', arg(node, ('name', 'mu', 'sigma', 'observed'), 0) == name)
            cx.eq(f'export {i}: mean', arg(node, ('name', 'mu', 'sigma', 'observed'), 1), result[i])
            cx.eq(f'export {i}: deviation', node.kw.get('sigma', 1), 1)
            alike(cx, f'export {i}: observed output', node.kw.get('observed'), keep[name])
        cx.check(f'export {i}: the observations are kept', list(obs) == list(keep) and all(obs[c] is keep[c] for c in keep))
    for n, v in vs.items():
        v.check_sampling(f'{n} afterwards', (1, 2, 1))


def cfgs(t):
    out = [dict(kind=k, latents=('k',), conds={'temp': 'number'}) for k in ('plain', 'deg', 'fail', 'init', 'cond')]
    out += [dict(kind='deg', latents=l, conds=c, times=n, sample=s, default=d) for l, c, n, s, d in (
        ((), {'temp': 2}, 1, False, False), (('k', 'c'), {'time': 3, 'temp': 'number'}, 1, False, True),
        (('e',), {'time': 3}, 2, True, False), (('k', 'c', 'e'), {'temp': 2, 'vdd': 'number'}, 2, False, True),
        (('e', 'k'), {}, 1, True, False), (('c',), {}, 2, True, False))]
    out += [dict(kind='cond', latents=('k', 'e'), conds={'temp': 'number', 'vdd': 2}, order=o) for o in
            (('temp', 'k', 'vdd', 'e'), ('vdd', 'e', 'temp', 'k'))]
    out += [dict(kind='plain', latents=('e',), conds={'temp': 2}, name=n) for n in ('e', 'time')]
    return out


HARNESS = {'export': dict(fn=export, configs=cfgs)}
