"""C13: the initial state provides every parameter with enough independent devices."""
import numpy as np

from harness import lib

BOUNDS = ('device models of 2 degrading and 2 derived parameters in two orders; every request of 1 to 3 (one parameter: 9; one request: 150) devices of any subset '
          'of the parameters (and condition sensors), from a mapping or a report; shapes up to 3 lots and 2 chips (4 for one parameter); every '
          'latent draw, neutral value and initial-value equation; two states of the same model')

USES = {'z': ('a', 'b'), 'y': ('b',)}


def build(cx, order, shared=False):
    from gerabaldi.models import DeviceMdl, DegPrmMdl, DegMechMdl, FailMechMdl, InitValMdl, CondShiftMdl, CircPrmMdl, LatentVar
    rv = {n: cx.rv(n) for n in ('ai', 'aj', 'am', 'an', 'ac', 'ap', 'bi', 'bm', 'zl')}
    lv = {n: LatentVar(r) for n, r in rv.items()}
    if shared:  # one variable used in several places still gives every place and device its own draw
        for n in ('bi', 'bm', 'am', 'zl'):
            lv[n] = lv['ai']
    iv = cx.func('initial', ['i', 'j'])
    un = {'m': cx.real('um'), 'n': cx.real('un'), 'k': cx.real('uk')}
    f = lambda time, p: 0 * time * p  # noqa: E731
    mdls = {
        'a': lambda: DegPrmMdl({'m': DegMechMdl(f, unitary_val=un['m'], p=lv['am']),
                                'n': FailMechMdl(f, unitary_val=un['n'], p=lv['an'])},
                               init_val_mdl=InitValMdl(iv, i=lv['ai'], j=lv['aj']),
                               cond_shift_mdl=CondShiftMdl(lambda c: c, c=lv['ac']),
                               compute_eqn=lambda init, cond, m, n, g: init + cond + m + n + g, g=lv['ap']),
        'b': lambda: DegPrmMdl({'k': DegMechMdl(f, unitary_val=un['k'], p=lv['bm'])},
                               init_val_mdl=InitValMdl(init_val=lv['bi'])),
        'z': lambda: CircPrmMdl(lambda a, b, temp, q: a + b + temp + q, q=lv['zl']),
        'y': lambda: CircPrmMdl(lambda volt, b: b + volt),
    }
    return DeviceMdl({n: mdls[n]() for n in order}), rv, iv, un


def request(cx, prms, N):
    return {p: n for p in prms for n in [cx.choice(f'count {p}', list(range(1, N + 1)))]}


def state(cx, order, prms, chips, lots, via, shared=False, N=3, exact=None):
    from gerabaldi.models import SimReport, TestSpec, MeasSpec
    from gerabaldi import gen_init_state
    dev, rv, iv, un = build(cx, order, shared)
    req = exact or request(cx, prms, N)
    if via == 'report':
        conds = {'temp': 1.0, 'volt': 2.0}
        rep = SimReport(TestSpec([MeasSpec(dict(req), conds), MeasSpec({prms[0]: 1}, conds)], chips, lots))
        st = gen_init_state(dev, **({} if len(prms) > 1 else {'dev_counts': {}}), quantity_info=rep)
    else:
        st = gen_init_state(dev, dict(req), chips, lots)
    need = {p: req.get(p, 1) for p in ('a', 'b', 'z', 'y')}
    for d, us_ in USES.items():
        if d in req:
            for p in us_:
                need[p] = max(need[p], req[d])
    C = {}
    for p in ('a', 'b'):
        v = st.init_prm_vals[p]
        if not cx.check(f'{p}: enough devices on every chip of every lot',
                        v.ndim == 3 and v.shape[:2] == (lots, chips) and v.shape[2] >= need[p]):
            return
        C[p] = v.shape
        cx.check(f'{p}: shapes agree', st.curr_prm_vals[p].shape == v.shape)
        cx.eq(f'{p}: current = initial', st.curr_prm_vals[p], v)
    if via == 'report':
        for p in ('a', 'b'):
            cx.check(f'{p}: the report knows the count', rep.dev_counts[p] == C[p][2])
    for p, ms in (('a', 'mn'), ('b', 'k')):
        for m in ms:
            for st_ in (st.curr_deg_mech_vals, st.init_deg_mech_vals):
                cx.eq(f'{p}.{m}: starts neutral', st_[p][m], cx._arr(np.full(C[p], un[m], dtype=object)))
    L = st.latent_var_vals
    got = {'am': L['a']['m']['p'], 'an': L['a']['n']['p'], 'ac': L['a']['cond']['c'], 'ap': L['a']['g'],
           'bm': L['b']['k']['p'], 'zl': L['z']['q']}
    for n, v in got.items():
        p = n[0]
        if p == 'z':
            cx.check(f'latent {n}: enough', v.shape[:2] == (lots, chips) and v.shape[2] >= need['z'])
        else:
            cx.check(f'latent {n}: one per device', v.shape == C[p])
    if shared:
        keep = [n for n in got if n in ('bm', 'am', 'zl')]
        vals = [x for n in keep for x in np.asarray(got[n]).ravel()]
        vals += list(np.asarray(st.init_prm_vals['b']).ravel())
        total = len(vals) + int(np.prod(C['a']))
        # draws of the one variable are different numbers: so must the values be
        for i in range(total):
            cx.assume((rv['ai'].draw(i) > i * 1.0) & (rv['ai'].draw(i) < i + 1.0))
        for i in range(len(vals)):
            for j in range(i):
                cx.check(f'separate draws {i} {j}', (vals[i] < vals[j]) | (vals[i] > vals[j]))
        return
    for n, v in got.items():
        for k, ix in enumerate(np.ndindex(*v.shape)):
            cx.eq(f'latent {n} {ix}', v[ix], rv[n].draw(k))
    for k, ix in enumerate(np.ndindex(*C['a'])):
        cx.eq(f'a: initial {ix}', st.init_prm_vals['a'][ix], iv(rv['ai'].draw(k), rv['aj'].draw(k)))
    for k, ix in enumerate(np.ndindex(*C['b'])):
        cx.eq(f'b: initial {ix}', st.init_prm_vals['b'][ix], rv['bi'].draw(k))
    cx.check('time starts at 0', st.elapsed.total_seconds() == 0)
    cx.observe('v', [st.init_prm_vals['a'], st.init_prm_vals['b']])


def twice(cx, order, first, second, chips, lots, via):
    """every state is a new population: no value of one is a value of another"""
    from gerabaldi.models import SimReport, TestSpec, MeasSpec
    from gerabaldi import gen_init_state
    dev, rv, iv, un = build(cx, order)
    sts = []
    for req in (first, second):
        if via == 'report':
            sts.append(gen_init_state(dev, quantity_info=SimReport(TestSpec(
                [MeasSpec(dict(req), {'temp': 1.0, 'volt': 2.0})], chips, lots))))
        elif via == 'model':
            sts.append(dev.gen_init_state({**{'a': 1, 'b': 1}, **req}, chips, lots))
        else:
            sts.append(gen_init_state(dev, dict(req), chips, lots))
    pick = {'bi': lambda s: s.init_prm_vals['b'], 'am': lambda s: s.latent_var_vals['a']['m']['p'],
            'ac': lambda s: s.latent_var_vals['a']['cond']['c'], 'ap': lambda s: s.latent_var_vals['a']['g'],
            'zl': lambda s: s.latent_var_vals['z']['q']}
    for n, get in pick.items():
        one, two = (list(np.asarray(get(s)).ravel()) for s in sts)
        for i in range(len(one) + len(two)):
            cx.assume((rv[n].draw(i) > i * 1.0) & (rv[n].draw(i) < i + 1.0))
        for i, x in enumerate(one):
            for j, y in enumerate(two):
                cx.check(f'{n}: {i} of the first and {j} of the second state', (x < y) | (x > y))


def simulated(cx, order, plan, chips, lots, state=None):
    """a whole simulation measures that many different devices before and after stress"""
    import datetime as dt
    from gerabaldi.models import TestSpec, MeasSpec, StrsSpec, PhysTestEnv
    from gerabaldi import simulate, gen_init_state
    dev, rv, iv, un = build(cx, order)
    conds = {'temp': cx.real('temp'), 'volt': cx.real('volt')}
    steps = [StrsSpec(conds, dt.timedelta(hours=3)) if not r else MeasSpec(dict(r), conds) for r in plan]
    init = gen_init_state(dev, dict(state), chips, lots) if state else None
    rep = simulate(TestSpec(steps, chips, lots), dev, PhysTestEnv(), init)
    num = {'a': 0, 'b': 0}
    for p in num:
        num[p] = rep.dev_counts[p]
    for i, req in enumerate(plan):
        for p, n in req.items():
            if p in conds:
                continue
            rows = lib.rows(rep, p, i)
            if not cx.check(f'{p}: {n} devices on every chip', len(rows) == lots * chips * n):
                return
            if p not in 'by' or any(not r for r in plan[:i]):
                continue
            for (l, c, d), r in zip(np.ndindex(lots, chips, n), rows):
                k = (l * chips + c) * num['b'] + d
                v = rv['bi'].draw(k)
                cx.eq(f'{p}: {(l, c, d)}', r[4], v + conds['volt'] if p == 'y' else v + un['k'])


O1, O2 = ('a', 'b', 'z', 'y'), ('z', 'y', 'b', 'a')
HARNESS = {
    'state': dict(fn=state, opts=dict(witnesses=6), configs=lambda t: [
        dict(order=o, prms=p, chips=c, lots=l, via=v) for (o, p, c, l) in (
            (O1, ('a', 'b'), 2, 1), (O2, ('b', 'a'), 1, 1), (O1, ('z', 'a'), 1, 2), (O2, ('a', 'y', 'temp'), 1, 1),
            (O1, ('y',), 1, 1), (O2, ('z', 'y'), 1, 1), (O1, ('y', 'z'), 1, 1), (O2, ('temp', 'z'), 1, 1),
            (O1, ('a', 'z', 'b'), 1, 1)) for v in ('report', 'counts')]
        + [dict(order=o, prms=('b', 'z'), chips=2, lots=l, via=v, exact={'b': 150, 'z': 70}) for o, l, v in (
            (O1, 2, 'report'), (O2, 1, 'counts'))]
        + [dict(order=o, prms=('a', 'y', 'temp', 'volt'), chips=1, lots=1, via=v, exact=x) for o in (O1, O2) for v in ('report', 'counts')
           for x in ({'b': 1, 'y': 2, 'a': 3, 'temp': 3, 'volt': 4}, {'volt': 5, 'temp': 6, 'a': 1, 'z': 3, 'b': 1, 'y': 4})]
        + [dict(order=O1, prms=('z',), chips=4, lots=3, via='report', N=9)]
        + [dict(order=o, prms=('a', 'b', 'z'), chips=1, lots=1, via='counts', shared=True, N=1) for o in (O1, O2)]
        + ([dict(order=o, prms=('y', 'a', 'z', 'b'), chips=1, lots=1, via=v) for o in (O1, O2)
            for v in ('report', 'counts')] + [dict(order=O1, prms=('z', 'b'), chips=2, lots=3, via='report')]
           if t == 'thorough' else [])),
    'twice': dict(fn=twice, configs=lambda t: [
        dict(order=O1, first={'a': 2, 'z': 1}, second={'a': 2, 'z': 1}, chips=1, lots=1, via=v) for v in ('report', 'counts', 'model')]
        + [dict(order=O2, first={'b': 1, 'z': 2}, second={'z': 1}, chips=2, lots=1, via='counts'),
           dict(order=O2, first={'a': 1}, second={'a': 1}, chips=1, lots=2, via='report')]),
    'simulated': dict(fn=simulated, configs=lambda t: [
        dict(order=O1, plan=({'b': 2}, {}, {'y': 3, 'a': 1}), chips=2, lots=2),
        dict(order=O2, plan=({'y': 1, 'temp': 4}, {'b': 3, 'z': 2}, {}, {'a': 2}), chips=1, lots=3),
        dict(order=O1, plan=({}, {'z': 2}, {'b': 1}), chips=3, lots=1),
        dict(order=O2, plan=({'y': 2, 'b': 1}, {}, {'a': 1}), chips=2, lots=1, state={'a': 3, 'b': 4}),
        dict(order=O1, plan=({'b': 1}, {'b': 2}), chips=1, lots=2, state={'y': 2, 'a': 1})]),
}
