"""C06: environmental conditions combine batch, chip and device variations exactly."""
import numpy as np

BOUNDS = ('lots, chips, devices per axis from the listed shapes (up to 3 each, and 4, 5, 11, and 12, 13, 14); all 8 layer subsets; offset and scaling; up '
          'to 3 reconfigurations; repeated generation; every draw and target value any real')
LAYERS = ('batch', 'chp', 'dev')


def expect(cx, rvs, base, vtype, at, shape):
    """the documented law; draws are assigned in lot, chip, device order from the given stream positions"""
    L, Cc, D = shape
    out = np.empty(shape, dtype=object)
    for l, c, d in np.ndindex(*shape):
        v = base
        for k, i in (('batch', 0), ('chp', l * Cc + c), ('dev', (l * Cc + c) * D + d)):
            if rvs[k] is not None:
                x = rvs[k].draw(at[k] + i)
                v = v * x if vtype == 'scaling' else v + x
        out[l, c, d] = v
    return cx._arr(out)


def make(cx, names=''):
    return {k: (cx.rv(names + k) if cx.choice('has_' + names + k, [True, False]) else None) for k in LAYERS}


def mdl(rvs, vtype=None, **k):
    from gerabaldi.models import EnvVrtnMdl
    kw = dict(k)
    if vtype:
        kw['vrtn_type'] = vtype
    return EnvVrtnMdl(dev_vrtn_mdl=rvs['dev'], chp_vrtn_mdl=rvs['chp'], batch_vrtn_mdl=rvs['batch'], **kw)


def used(at, shape):
    at['batch'] += 1
    at['chp'] += shape[0] * shape[1]
    at['dev'] += shape[0] * shape[1] * shape[2]


def layering(cx, shape, vtype, full=False):
    rvs = {k: cx.rv(k) for k in LAYERS} if full else make(cx)
    m = mdl(rvs, vtype)
    at = dict.fromkeys(LAYERS, 0)
    for i in range(2):
        base = cx.real(f'base{i}')
        got = m.gen_env_vrtns(base, shape[2], shape[1], shape[0])
        cx.eq(f'condition values, call {i}', got, expect(cx, rvs, base, vtype or 'offset', at, shape))
        cx.observe('v', got)
        used(at, shape)


def reconfigure(cx, shape, ops, start):
    vtype = start
    rvs = make(cx)
    m = mdl(rvs, vtype)
    for i, op in enumerate(ops):
        if op == 'flip':
            vtype = 'offset' if vtype == 'scaling' else 'scaling'
            m.vrtn_type = vtype
        elif op == 'same':
            m.vrtn_type = vtype
        else:
            what, k = op.split('-')
            rvs[k] = cx.rv(f'{k}{i}') if what == 'set' else None
            setattr(m, f'{k}_vrtn_mdl', rvs[k])
    base = cx.real('base')
    got = m.gen_env_vrtns(base, shape[2], shape[1], shape[0])
    cx.eq('values after ' + ','.join(ops), got, expect(cx, rvs, base, vtype, dict.fromkeys(LAYERS, 0), shape))
    cx.observe('v', got)


def fixed(cx, shape, vtype, which):
    """layers that are deterministic: every condition value gets that value"""
    from gerabaldi.models import Deterministic, EnvVrtnMdl
    v = {k: cx.real(k) for k in which}
    m = EnvVrtnMdl(**{f'{k}_vrtn_mdl': Deterministic(x) for k, x in v.items()}, vrtn_type=vtype)
    base = cx.real('base')
    for i in range(2):
        want = base
        for x in v.values():
            want = want * x if vtype == 'scaling' else want + x
        got = m.gen_env_vrtns(base, shape[2], shape[1], shape[0])
        if not cx.check('one value per device', tuple(got.shape) == tuple(shape)):
            return
        for ix in np.ndindex(*shape):
            cx.eq(f'{ix} (call {i})', got[ix], want)
        vtype = 'offset' if vtype == 'scaling' else 'scaling'
        m.vrtn_type = vtype


def in_env(cx, shape, form, vtypes):
    """through the environment: each condition keeps its own layers; conditions without a model are exact"""
    from gerabaldi.models import PhysTestEnv
    rvs = {n: make(cx, n) if n == 'temp' else {k: cx.rv(n + k) for k in LAYERS} for n in ('temp', 'volt')}
    ms = {n: mdl(rvs[n], v, name=n) for n, v in zip(rvs, vtypes)}
    env = PhysTestEnv(ms if form == 'dict' else list(ms.values()))
    base = {n: cx.real(n) for n in ('volt', 'temp', 'hum')}
    at = {n: dict.fromkeys(LAYERS, 0) for n in rvs}
    for i in range(2):
        for n in base:
            got = env.vrtn_mdl(n).gen_env_vrtns(base[n], shape[2], shape[1], shape[0])
            if n in rvs:
                want = expect(cx, rvs[n], base[n], vtypes[list(rvs).index(n)], at[n], shape)
                used(at[n], shape)
            else:
                want = np.full(shape, base[n], dtype=object) if cx.symbolic else np.full(shape, base[n])
            cx.eq(f'condition {n}, call {i}', got, want)


def simulated(cx, shape, vtype):
    """the conditions a stress phase and a measurement really apply"""
    from gerabaldi.models import (PhysTestEnv, DeviceMdl, DegPrmMdl, DegMechMdl, FailMechMdl, CondShiftMdl, TestSpec,
                                  StrsSpec, MeasSpec)
    from gerabaldi import simulate
    rvs = make(cx)
    env = PhysTestEnv({'temp': mdl(rvs, vtype)})
    # the parameter shows the stress temperature (hard failure value) plus the measurement temperature
    mech = FailMechMdl(lambda time, temp: temp, mdl_name='mech')
    prm = DegPrmMdl(mech, cond_shift_mdl=CondShiftMdl(lambda temp: temp), prm_name='prm')
    T = [cx.real(f'T{i}') for i in range(3)]
    spec = TestSpec([MeasSpec({'prm': shape[2]}, {'temp': T[0]}), StrsSpec({'temp': T[1]}, 5),
                     MeasSpec({'prm': shape[2]}, {'temp': T[2]})], num_chps=shape[1], num_lots=shape[0])
    rep = simulate(spec, DeviceMdl(prm), env)
    from harness import lib
    at = dict.fromkeys(LAYERS, 0)
    gens = []
    for i in range(3):
        gens.append(expect(cx, rvs, T[i], vtype, at, shape))
        used(at, shape)
    got = [lib.vals(rep, 'prm', i, shape) for i in (0, 2)]
    for ix in np.ndindex(*shape):
        cx.eq(f'measurement conditions at {ix}', got[0][ix], gens[0][ix])
        cx.eq(f'stress and measurement conditions at {ix}', got[1][ix], gens[1][ix] + gens[2][ix])
    cx.observe('v', rep.measurements['measured'].tolist())


def _shapes(t):
    return [(1, 1, 1), (2, 3, 2), (2, 2, 2), (3, 1, 2), (3, 3, 3), (4, 5, 11)] + ([(1, 2, 3), (3, 2, 1), (2, 3, 4)] if t == 'thorough' else [])


OPS = [('flip',), ('flip', 'flip'), ('same',), ('clr-chp', 'flip'), ('flip', 'clr-batch'), ('set-dev', 'flip'),
       ('clr-dev', 'flip', 'set-chp'), ('flip', 'set-batch', 'flip'), ('clr-batch', 'clr-chp'), ('flip', 'clr-dev')]


def cfg_reconf(t):
    out = [dict(shape=(2, 3, 2), ops=o, start=s) for o in OPS for s in ('scaling', 'offset')]
    if t == 'thorough':
        import itertools
        allo = ['flip'] + [f'{w}-{k}' for w in ('set', 'clr') for k in LAYERS]
        out += [dict(shape=(2, 2, 3), ops=o, start='scaling') for o in itertools.product(allo, repeat=2)]
        out += [dict(shape=(1, 2, 2), ops=o, start='offset') for o in itertools.product(allo, repeat=3)]
    return out


HARNESS = {
    'layering': dict(fn=layering, configs=lambda t: [dict(shape=s, vtype=v) for s in _shapes(t)
                                                     for v in (None, 'scaling', 'offset')]
                     + [dict(shape=(12, 13, 14), vtype='offset', full=True)]),
    'fixed': dict(fn=fixed, configs=lambda t: [dict(shape=(2, 3, 2), vtype=v, which=w) for v in ('scaling', 'offset') for w in (
        ('dev',), ('chp',), ('batch',), LAYERS)]),
    'reconfigure': dict(fn=reconfigure, configs=cfg_reconf),
    'in_env': dict(fn=in_env, configs=lambda t: [dict(shape=s, form=f, vtypes=v) for s in _shapes(t)[1:]
                                                 for f, v in (('dict', ('offset', 'scaling')),
                                                              ('list', ('scaling', 'offset')))]),
    'simulated': dict(fn=simulated, configs=lambda t: [dict(shape=s, vtype=v) for s in _shapes(t)
                                                       for v in ('offset', 'scaling')]),
}
