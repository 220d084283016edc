"""C24: invalid configurations are rejected instead of silently simulated."""
import datetime as dt

from harness import lib
from harness.lib import UNIT_US, us

BOUNDS = ('every duration (real number in every unit, timedelta), condition, deterministic value, layer combination and '
          'sample count; the listed wrong names, types and counts; measurements of unknown things at every position of '
          'tests with up to 4 steps; the valid configurations of the same shape')
OUTSIDE = 'other wrong texts than the listed ones'


def rejects(cx, label, fn, exc):
    o, e = cx.outcome(fn)
    cx.check(f'{label} is rejected', o == 'raise' and isinstance(e, exc))


def accepts(cx, label, fn):
    o, e = cx.outcome(fn)
    cx.check(f'{label} is accepted', o == 'ok')
    return e if o == 'ok' else None


def duration(cx, unit, kind, looped):
    """no stress time at all: rejected, anything more: accepted"""
    from gerabaldi.models import StrsSpec, TestSpec, MeasSpec
    from gerabaldi.exceptions import UserConfigError
    conds = {'temp': cx.real('T')}
    if kind == 'td':
        x = cx.td('d', 0, 10**12)
        n = cx.int('d.us', 0, 10**12)
        zero, some = n == 0, n >= 1
    else:
        x = cx.real('d', 0, 10**9) if kind == 'real' else cx.int('d', 0, 10**9)
        n = x * UNIT_US[unit or 'h']
        zero, some = n <= 0.499, n >= 0.501
    kw = {'time_unit': unit} if unit else {}
    if looped:
        cx.assume(n <= 10**10)
        spec = TestSpec([MeasSpec({'p': 1}, conds)])
        one = StrsSpec(conds, dt.timedelta(hours=3), 'phase')
        add = [one, MeasSpec({'p': 1}, conds)] if looped == 'list' else one

        def go():
            try:
                spec.append_steps(add, x, **kw)
            except UserWarning:
                pass
    else:
        def go():
            return StrsSpec(conds, x, 'phase', **kw)
    if bool(zero):
        rejects(cx, 'no duration', go, UserConfigError)
        if looped:
            cx.check('nothing is added', len(spec.steps) == 1)
    elif bool(some):
        accepts(cx, 'a duration', go)


def no_stress(cx, pattern, single=False):
    """a loop of measurements only"""
    from gerabaldi.models import StrsSpec, TestSpec, MeasSpec
    from gerabaldi.exceptions import UserConfigError
    conds = {'temp': cx.real('T')}
    steps = [StrsSpec(conds, cx.td(f'p{i}', 1, 10**12)) if c == 's' else MeasSpec({'p': cx.int(f'n{i}', 1, 100)}, conds)
             for i, c in enumerate(pattern)]
    x, n = us(cx, 'd', 1, 10**12)
    spec = TestSpec([])
    if 's' in pattern:
        cx.assume(n <= 3 * cx.int(f'p{pattern.index("s")}.us', 1, 10**12))

        def go():
            try:
                spec.append_steps(steps[0] if single else steps, x)
            except UserWarning:
                pass
        accepts(cx, 'a loop with stress', go)
    else:
        rejects(cx, 'a loop without stress', lambda: spec.append_steps(steps[0] if single else steps, x), UserConfigError)
        cx.check('nothing is added', len(spec.steps) == 0)


WRONG = ['Scaling', 'additive', 'offset ', '', None, 'scaling,offset', 1, 'OFFSET', 'multiply', 'scal', ('offset',)]


def latent(cx, wrong):
    """values, layers and variation type of a latent variable"""
    from gerabaldi.models import LatentVar
    from gerabaldi.exceptions import UserConfigError, InvalidTypeError
    kw = {f'{k}_vrtn_mdl': cx.rv(k) for k in ('dev', 'chp', 'lot') if cx.choice(f'has {k}', [False, True])}
    deter = cx.choice('deter', ['none', 'int', 'real', 'omitted'])
    if deter == 'none':
        kw['deter_val'] = None
    elif deter != 'omitted':
        kw['deter_val'] = cx.int('vi', -10**6, 10**6) if deter == 'int' else cx.real('v')
    if cx.choice('named', [False, True]):
        kw['name'] = 'x'
    given = 'dev_vrtn_mdl' in kw or kw.get('deter_val') is not None
    if wrong:
        for w in WRONG:
            rejects(cx, f'variation type {w!r}', lambda: LatentVar(**kw, vrtn_type=w), InvalidTypeError)
        if given:
            lv = LatentVar(**kw)
            for t in ('offset', 'scaling'):
                accepts(cx, t, lambda: setattr(lv, 'vrtn_type', t))
                for w in WRONG:
                    rejects(cx, f'change to {w!r}', lambda: setattr(lv, 'vrtn_type', w), InvalidTypeError)
                cx.check('the type is kept', lv.vrtn_type == t)
        return
    for t in ('scaling', 'offset', None):
        k2 = {**kw, 'vrtn_type': t} if t else kw
        if given:
            lv = accepts(cx, 'a latent variable with a value', lambda: LatentVar(**k2))
            if lv is not None:
                accepts(cx, 'sampling it', lambda: lv.gen_latent_vals(2, 1, 2))
        else:
            rejects(cx, 'a latent variable without a value', lambda: LatentVar(**k2), UserConfigError)


def env_type(cx):
    from gerabaldi.models import EnvVrtnMdl
    from gerabaldi.exceptions import InvalidTypeError
    kw = {f'{k}_vrtn_mdl': cx.rv(k) for k in ('dev', 'chp', 'batch') if cx.choice(f'has {k}', [False, True])}
    for w in WRONG:
        rejects(cx, f'variation type {w!r}', lambda: EnvVrtnMdl(**kw, vrtn_type=w), InvalidTypeError)
    m = accepts(cx, 'no type', lambda: EnvVrtnMdl(**kw))
    for t in ('offset', 'scaling'):
        accepts(cx, t, lambda: EnvVrtnMdl(**kw, vrtn_type=t))
        accepts(cx, t, lambda: setattr(m, 'vrtn_type', t))
        for w in WRONG:
            rejects(cx, f'change to {w!r}', lambda: setattr(m, 'vrtn_type', w), InvalidTypeError)
        cx.check('the type is kept', m.vrtn_type == t)
    accepts(cx, 'generating', lambda: m.gen_env_vrtns(cx.real('base'), 2, 1, 2))


def names(cx, kind):
    """single models need a name"""
    from gerabaldi.models import DeviceMdl, DegPrmMdl, DegMechMdl, FailMechMdl, CircPrmMdl, LatentVar
    from gerabaldi.exceptions import UserConfigError
    cls = DegMechMdl if kind == 'deg' else FailMechMdl
    f = cx.func('f', ['time', 'a'])

    def mech(n):
        kw = {'a': LatentVar(deter_val=cx.real('a')), 'unitary_val': cx.real('u')}
        return cls(f, **kw) if n == 'omitted' else cls(f, mdl_name=n, **kw)

    def prm(n):
        m = {'m': mech(None)}
        return DegPrmMdl(m) if n == 'omitted' else DegPrmMdl(m, prm_name=n)

    def circ(n):
        g = cx.func('g', ['p', 'temp'])
        return CircPrmMdl(g) if n == 'omitted' else CircPrmMdl(g, prm_name=n)
    for n in ('omitted', None, ''):
        rejects(cx, f'a mechanism named {n!r}', lambda: DegPrmMdl(mech(n), prm_name='p'), UserConfigError)
        rejects(cx, f'a parameter named {n!r}', lambda: DeviceMdl(prm(n)), UserConfigError)
        rejects(cx, f'a derived parameter named {n!r}', lambda: DeviceMdl(circ(n)), UserConfigError)
        accepts(cx, 'mechanisms named by a mapping', lambda: DegPrmMdl({'m': mech(n)}, prm_name='p'))
        accepts(cx, 'parameters named by a mapping', lambda: DeviceMdl({'p': prm(n), 'c': circ(n)}))
    for n in ('m', 'NBTI model', '0'):
        accepts(cx, f'a mechanism named {n!r}', lambda: DegPrmMdl(mech(n)))
        accepts(cx, f'a parameter named {n!r}', lambda: DeviceMdl(prm(n)))
        accepts(cx, f'a derived parameter named {n!r}', lambda: DeviceMdl({'p': prm('p'), n: circ(n)}))


def counts(cx):
    """device counts of generated conditions and initial states"""
    from gerabaldi.models import (DeviceMdl, DegPrmMdl, DegMechMdl, EnvVrtnMdl, PhysTestEnv, SimReport, TestSpec, MeasSpec,
                                  LatentVar, InitValMdl)
    from gerabaldi.exceptions import UserConfigError
    from gerabaldi import gen_init_state
    f = cx.func('f', ['time', 'temp'])
    dev = DeviceMdl(DegPrmMdl(DegMechMdl(f, mdl_name='m'), prm_name='p', init_val_mdl=InitValMdl(init_val=LatentVar(cx.rv('i')))))
    env = PhysTestEnv({'temp': EnvVrtnMdl(dev_vrtn_mdl=cx.rv('e'))})
    base = {'temp': cx.real('T'), 'vdd': cx.real('V')}
    rep = SimReport(TestSpec([MeasSpec({'p': 2}, base)], 2, 1))
    for prms in (['p'], ['temp'], ['p', 'temp'], []):
        for kw in ({}, {'dev_mdl': dev}, {'dev_mdl': dev, 'target': 'measure', 'num_chps': 3, 'num_lots': 2}):
            rejects(cx, f'conditions of {prms} without counts', lambda: env.gen_env_cond_vals(base, prms, **kw), UserConfigError)
    accepts(cx, 'counts', lambda: env.gen_env_cond_vals(base, {'p': 2}, dev_mdl=dev))
    accepts(cx, 'counts of a sensor', lambda: env.gen_env_cond_vals(base, {'temp': 1}))
    accepts(cx, 'counts of a report', lambda: env.gen_env_cond_vals(base, ['p'], rep, dev))
    for c in (None, {}):
        for kw in ({}, {'num_chps': 2, 'num_lots': 3}, {'elapsed_time': cx.td('t', 0, 10**12)}):
            rejects(cx, f'a state for {c}', lambda: gen_init_state(dev, c, **kw), UserConfigError)
    rejects(cx, 'a state', lambda: gen_init_state(dev), UserConfigError)
    accepts(cx, 'a state with counts', lambda: gen_init_state(dev, {'p': 1}, 2, 3, elapsed_time=cx.td('t', 0, 10**12)))
    accepts(cx, 'a state for a report', lambda: gen_init_state(dev, quantity_info=rep))


def unknown(cx, steps, at, what):
    """a measurement of something that is neither a parameter nor a condition of the step"""
    from gerabaldi.models import DeviceMdl, DegPrmMdl, DegMechMdl, CircPrmMdl, PhysTestEnv, TestSpec, MeasSpec, StrsSpec
    from gerabaldi.exceptions import MissingParamError
    from gerabaldi import simulate
    lib.stub_minimise(cx)
    f = cx.func('f', ['time', 'temp'], mono='time', at0=0)
    g = cx.func('g', ['p', 'temp'])
    order = cx.choice('order', ['first', 'last'])

    def build(bad):
        out = []
        for i, s in enumerate(steps):
            conds = {'temp': cx.real(f'T{i}')}
            if s == 's':
                out.append(StrsSpec({**conds, 'load': cx.real(f'l{i}')}, us(cx, f'd{i}', lo=lib.HOUR, hi=1000 * lib.HOUR)[0]))
                continue
            if i != at:
                conds['hum'] = cx.real(f'h{i}')
            m = {'p': 1, 'c': 2, 'temp': 1}
            if i == at and bad is not None:
                m = {bad: 1, **m} if order == 'first' else {**m, bad: 2}
            out.append(MeasSpec(m, conds))
        dev = DeviceMdl({'p': DegPrmMdl(DegMechMdl(f, mdl_name='m')), 'c': CircPrmMdl(g)})
        return simulate(TestSpec(out), dev, PhysTestEnv())
    rejects(cx, f'a measurement of {what}', lambda: build(what), MissingParamError)
    accepts(cx, 'the same test without it', lambda: build(None))


HARNESS = {
    'duration': dict(fn=duration, configs=lambda t: [
        dict(unit=u, kind=k, looped=lo) for u, k in ((None, 'td'), (None, 'real'), ('h', 'int'), ('d', 'real'), ('s', 'real'),
                                                     ('ms', 'int'), ('us', 'real'), ('seconds', 'int')) for lo in (None, 'list')]
        + [dict(unit=None, kind='td', looped='single')]),
    'no stress': dict(fn=no_stress, configs=lambda t: [
        dict(pattern=p, single=s) for p, s in (('m', True), ('m', False), ('mmm', False), ('', False), ('s', True), ('ms', False),
                                               ('smm', False))]),
    'latent': dict(fn=latent, opts=dict(witnesses=12), configs=lambda t: [dict(wrong=False), dict(wrong=True)]),
    'environment': dict(fn=env_type, configs=lambda t: [dict()]),
    'names': dict(fn=names, configs=lambda t: [dict(kind='deg'), dict(kind='fail')]),
    'counts': dict(fn=counts, configs=lambda t: [dict()]),
    'unknown': dict(fn=unknown, opts=dict(witnesses=4), configs=lambda t: [
        dict(steps=s, at=a, what=w) for s, a in (('m', 0), ('sm', 1), ('msm', 0), ('msm', 2), ('msms', 2))
        for w in ('q', 'hum', 'load', 'm')]),
}
