"""C25: a derived parameter is computed from its own device and conditions."""
import numpy as np

from harness import lib
from harness.lib import UNIT_US, us

BOUNDS = ('every derived-parameter equation of up to 3 degrading parameters, 2 conditions and 2 latent values in any order of '
          'arguments; up to 2 derived parameters and 3 stress phases with measurements before, between and after; shapes up '
          'to 3 lots, 3 chips, 3 devices, and up to 4, 5, 12; unworn devices of up to 9 parameters; fewer derived values measured than simulated; unmeasured degrading parameters; '
          'every value')
STUBS = ('degrading parameters use hard-failure mechanisms, whose value in each phase is exactly known (C04), so that the '
         'degraded values are known exactly')
OUTSIDE = 'equations that cannot take arrays (not supported by the package for derived parameters)'


def circuit(cx, args, shape, counts, plan, state=True, layers=False, second=False):
    """plan: letters, s: stress, 1-3: measure that many derived values (with the degrading parameters in between: a)"""
    from gerabaldi.models import (DeviceMdl, DegPrmMdl, FailMechMdl, InitValMdl, CircPrmMdl, LatentVar, TestSpec, StrsSpec,
                                  MeasSpec, PhysTestEnv, EnvVrtnMdl)
    from gerabaldi import simulate, gen_init_state
    L, Cc, _ = shape
    rv = {n: cx.rv(n) for n in ('ia', 'ib', 'iz', 'q', 'r', 'qc')}
    f = cx.func('f', ['time', 'volt'])
    g = cx.func('g', list(args))
    h = cx.func('h', ['b', 'temp'])
    e = cx.rv('e')
    ec = cx.rv('ec')
    a = DegPrmMdl({'m': FailMechMdl(f, time_unit='s')}, init_val_mdl=InitValMdl(init_val=LatentVar(rv['ia'])))
    b = DegPrmMdl({'m': FailMechMdl(lambda time: time * 2, time_unit='h')}, init_val_mdl=InitValMdl(init_val=LatentVar(rv['ib'])))
    lat = {k: LatentVar(rv[k], chp_vrtn_mdl=rv['qc'] if layers and k == 'q' else None) for k in ('q', 'r') if k in args}
    c = CircPrmMdl(g, **lat)
    z = DegPrmMdl({'m': FailMechMdl(lambda time: time * 3, time_unit='h')}, init_val_mdl=InitValMdl(init_val=LatentVar(rv['iz'])))
    mdls = {'c': c, 'a': a, 'b': b} if cx.choice('order', ['circuit first', 'circuit last']) == 'circuit first' else \
        {'a': a, 'b': b, 'c': c}
    if 'z' in args:
        mdls['z'] = z
    if second:
        mdls['d'] = CircPrmMdl(h)
    dev = DeviceMdl(mdls)
    # the temperature is only used by the derived parameters, the voltage by the mechanism of a as well
    env = PhysTestEnv({'temp': EnvVrtnMdl(dev_vrtn_mdl=e, chp_vrtn_mdl=ec)}) if 'temp' in args and not second else PhysTestEnv()
    steps, info = [], []
    for i, s in enumerate(plan):
        if s == 's':
            td, n = us(cx, f'd{i}')
            V = cx.real(f'V{i}')
            steps.append(StrsSpec({'volt': V, 'temp': cx.real(f'S{i}')}, td))
            info.append((n, V))
        elif s == 'a':
            steps.append(MeasSpec({k: counts[k] for k in ('a', 'b') if counts.get(k)}, {'temp': cx.real(f'A{i}')}))
            info.append(None)
        else:
            T, V = cx.real(f'T{i}'), cx.real(f'W{i}')
            m = {'c': int(s)}
            if second:
                m = {'d': int(s), 'c': int(s)} if cx.choice('d first', [True, False]) else {'c': int(s), 'd': int(s)}
            steps.append(MeasSpec(m, {'volt': V, 'temp': T}))
            info.append((int(s), T, V))
    nc = max([int(s) for s in plan if s not in 'sa'])
    degs = [k for k in 'abz' if k in mdls]
    need = {k: max(counts.get(k) or 0, nc) for k in degs}
    st = None
    if state:
        dc = {k: v for k, v in counts.items() if v}
        dc['c'] = nc
        if second:
            dc['d'] = nc
        st = gen_init_state(dev, dc, Cc, L)
    rep = simulate(TestSpec(steps, num_chps=Cc, num_lots=L), dev, env, st)
    if state:
        ini = {k: st.init_prm_vals[k] for k in degs}
        lv = {k: st.latent_var_vals['c'][k] for k in ('q', 'r') if k in args}
    else:
        ini, lv = {}, {}
        for k, r in [(k, 'i' + k) for k in degs]:
            ini[k] = cx._arr(np.array([rv[r].draw(i) for i in range(L * Cc * need[k])], dtype=object)).reshape(L, Cc, need[k])
        for k in ('q', 'r'):
            if k in args:
                lv[k] = cx._arr(np.array([rv[k].draw(i) for i in range(L * Cc * nc)], dtype=object)).reshape(L, Cc, nc)
    at, chp_at = 0, 0
    fa, fb, fz = 0, 0, 0
    done = 0
    for i, s in enumerate(plan):
        if s == 's':
            n, V = info[i]
            chp_at += L * Cc
            if bool(fa == 0):
                fa = f(n / UNIT_US['s'], V)
            if bool(fb == 0):
                fb = n / UNIT_US['h'] * 2
            if bool(fz == 0):
                fz = n / UNIT_US['h'] * 3
        elif s == 'a':
            chp_at += L * Cc
            for k, w in (('a', fa), ('b', fb)):
                if counts.get(k):
                    v = lib.vals(rep, k, i, (L, Cc, counts[k]))
                    for ix in np.ndindex(L, Cc, counts[k]):
                        cx.eq(f'step {i}: {k} itself {ix}', v[ix], ini[k][ix] + w)
        else:
            m, T, V = info[i]
            r = lib.rows(rep, 'c', i)
            if not cx.check(f'step {i}: one value per requested device', len(r) == L * Cc * m):
                return
            v = lib.vals(rep, 'c', i, (L, Cc, m))
            if second:
                vd = lib.vals(rep, 'd', i, (L, Cc, m))
            for j, ix in enumerate(np.ndindex(L, Cc, m)):
                t = T + ec.draw(chp_at + ix[0] * Cc + ix[1]) + e.draw(at + j) if 'temp' in args and not second else T
                x = {'temp': t, 'volt': V, **{k: w[ix] for k, w in lv.items()}}
                for k, w in (('a', fa), ('b', fb), ('z', fz)):
                    if k in args or (k == 'b' and second):
                        x[k] = ini[k][ix] + w
                cx.check(f'step {i}: labelled {ix}', v[ix] is not None)
                cx.eq(f'step {i}: device {ix}', v[ix], g(*[x[k] for k in args]))
                if second:
                    cx.eq(f'step {i}: second, device {ix}', vd[ix], h(x['b'], T))
                done += 1
            at += L * Cc * m
            chp_at += L * Cc
    cx.check('something was measured', done > 0)


def direct(cx, shape, num, args):
    """the model's own method with arbitrary values"""
    from gerabaldi.models import CircPrmMdl, LatentVar
    g = cx.func('g', list(args))
    c = CircPrmMdl(g, prm_name='c', **{k: LatentVar(deter_val=1) for k in ('q', 'r') if k in args})
    L, Cc, D = shape
    A = {k: cx.arr(k, (L, Cc, num) if k in ('temp', 'volt') else shape) for k in ('a', 'b', 'q', 'r', 'temp', 'volt')}
    got = c.calc_circ_vals(num, {k: A[k] for k in ('temp', 'volt')}, {k: A[k] for k in ('a', 'b')},
                           {k: A[k] for k in ('q', 'r') if k in args})
    if cx.check('one value per requested device', np.shape(got) == (L, Cc, num)):
        for ix in np.ndindex(L, Cc, num):
            cx.eq(f'device {ix}', got[ix], g(*[A[k][ix] for k in args]))
    if 'a' in args:
        cx.check('needs its parameters', sorted(c.get_required_prms(['b', 'a', 'zz'])) == sorted(k for k in 'ab' if k in args))



def wide(cx, n, shape, order, also=()):
    """a derived parameter of many parameters, some of which are measured too, on fewer devices"""
    from gerabaldi.models import (DeviceMdl, DegPrmMdl, DegMechMdl, InitValMdl, CircPrmMdl, LatentVar, TestSpec, MeasSpec, PhysTestEnv)
    from gerabaldi import simulate
    ps = [f'p{i}' for i in range(n)]
    rv = {p: cx.rv('init ' + p) for p in ps}
    q = [cx.rv(f'q{i}') for i in range(3)]
    args = [*reversed(ps), 'q0', 'temp', 'q1', 'q2'] if order else ['q2', 'temp', *ps, 'q1', 'q0']
    f = cx.func('circ', args)
    prms = {p: DegPrmMdl({'m': DegMechMdl()}, init_val_mdl=InitValMdl(init_val=LatentVar(rv[p]))) for p in ps}
    z = CircPrmMdl(f, **{f'q{i}': LatentVar(r) for i, r in enumerate(q)})
    dev = DeviceMdl({'z': z, **prms} if order else {**prms, 'z': z})
    T = cx.real('T')
    rep = simulate(TestSpec([MeasSpec({'z': shape[2], **{f'p{i}': 1 for i in also}}, {'temp': T})], shape[1], shape[0]), dev,
                   PhysTestEnv())
    got = lib.vals(rep, 'z', 0, shape)
    for k, ix in enumerate(np.ndindex(*shape)):
        v = {**{p: rv[p].draw(k) for p in ps}, **{f'q{i}': r.draw(k) for i, r in enumerate(q)}, 'temp': T}
        cx.eq(f'{ix}', got[ix], f(*[v[a] for a in args]))


HARNESS = {
    'wide': dict(fn=wide, configs=lambda t: [
        dict(n=n, shape=s, order=o, also=a) for n, s, a in ((5, (1, 2, 2), ()), (9, (2, 1, 1), ()), (6, (1, 2, 3), (0, 1, 4, 5)))
        for o in (0, 1)]),
    'circuit': dict(fn=circuit, opts=dict(witnesses=8), configs=lambda t: [
        dict(args=('a', 'temp', 'q'), shape=(1, 1, 1), counts=dict(a=1), plan='1s1'),
        dict(args=('q', 'b', 'temp', 'a'), shape=(2, 1, 1), counts=dict(a=3, b=2), plan='2sa21'),
        dict(args=('temp', 'a'), shape=(2, 3, 1), counts=dict(a=2), plan='1s2a'),
        dict(args=('volt', 'b', 'r', 'q', 'a'), shape=(1, 2, 1), counts={}, plan='s3s1'),
        dict(args=('a', 'b'), shape=(3, 2, 1), counts=dict(a=1, b=3), plan='as12'),
        dict(args=('b', 'a', 'q', 'z'), shape=(2, 1, 1), counts=dict(a=1, b=1, z=1), plan='s2s1'),
        dict(args=('z', 'b', 'a'), shape=(1, 2, 1), counts=dict(z=1, b=2, a=1), plan='3s1'),
        dict(args=('b', 'a', 'temp', 'z'), shape=(1, 2, 1), counts=dict(a=1), plan='2s1', state=False),
        dict(args=('q', 'volt'), shape=(2, 2, 1), counts=dict(a=1), plan='2s1'),
        dict(args=('b', 'q'), shape=(2, 2, 1), counts=dict(b=3), plan='1ss3', layers=True),
        dict(args=('a', 'temp', 'q'), shape=(2, 2, 1), counts=dict(a=2, b=2), plan='as2a1', state=False),
        dict(args=('q', 'a'), shape=(1, 3, 1), counts=dict(a=3), plan='2as3', state=False),
        dict(args=('a', 'temp', 'q'), shape=(4, 3, 1), counts=dict(a=9), plan='9a3', state=False),
        dict(args=('a', 'r'), shape=(2, 1, 1), counts=dict(a=2), plan='1s2', second=True),
        dict(args=('a', 'b'), shape=(1, 2, 1), counts=dict(a=4, b=5), plan='1as12', state=False),
        dict(args=('b', 'q', 'a'), shape=(1, 1, 1), counts=dict(a=6, b=7), plan='2as1s3'),
        dict(args=('temp', 'a', 'volt'), shape=(2, 2, 1), counts=dict(a=3, b=2), plan='s1as2a', second=True)]
        + ([dict(args=('temp', 'b', 'r', 'a', 'volt', 'q'), shape=(3, 3, 1), counts=dict(a=3, b=3), plan='2s1s3as21'),
            dict(args=('q', 'a', 'b'), shape=(2, 3, 1), counts=dict(a=3), plan='s3s1s2s3', second=True)]
           if t == 'thorough' else [])),
    'direct': dict(fn=direct, configs=lambda t: [
        dict(shape=s, num=n, args=a) for s, n in (((1, 1, 1), 1), ((2, 1, 3), 2), ((1, 3, 2), 1), ((3, 2, 2), 2), ((4, 5, 12), 11), ((1, 2, 6), 1), ((2, 1, 6), 2), ((1, 1, 6), 3))
        for a in (('a', 'temp', 'q'), ('volt', 'r', 'b', 'a', 'q', 'temp'))]),
}
