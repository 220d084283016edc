"""C05: latent values combine lot, chip and device variation layers exactly."""
import numpy as np

BOUNDS = ('lots, chips, devices per axis from the listed shapes (up to 3 each, and 4, 5, 11, and 12, 13, 14); all 8 layer subsets; up to 3 '
          'reconfigurations; every draw and base value any real')


def expect(cx, rvs, deter, vtype, starts, shape):
    """the documented law, with draws assigned in lot, chip, device order from the given stream positions"""
    L, Cc, D = shape
    out = np.empty(shape, dtype=object)
    for l in range(L):
        for c in range(Cc):
            for d in range(D):
                parts = []
                if deter is not None:
                    parts.append(deter)
                if rvs['dev'] is not None:
                    parts.append(rvs['dev'].draw(starts['dev'] + (l * Cc + c) * D + d))
                if rvs['chp'] is not None:
                    parts.append(rvs['chp'].draw(starts['chp'] + l * Cc + c))
                if rvs['lot'] is not None:
                    parts.append(rvs['lot'].draw(starts['lot'] + l))
                v = parts[0]
                for p in parts[1:]:
                    v = v * p if vtype == 'scaling' else v + p
                out[l, c, d] = v
    return cx._arr(out)


def layering(cx, shape, vtype, deter, full=False):
    from gerabaldi.models.devices import LatentVar
    rvs = {k: (cx.rv(k) if full or cx.choice('has_' + k, [True, False]) else None) for k in ('dev', 'chp', 'lot')}
    base = None
    if deter == 'real' or rvs['dev'] is None:
        base = cx.real('base')
    elif deter == 'zero':
        base = 0
    lv = LatentVar(rvs['dev'], rvs['chp'], rvs['lot'], deter_val=base, name='x', vrtn_type=vtype)
    starts = dict(dev=0, chp=0, lot=0)
    for rnd in range(2):
        got = lv.gen_latent_vals(shape[2], shape[1], shape[0])
        want = expect(cx, rvs, base, vtype, starts, shape)
        cx.eq(f'layered values (call {rnd})', got, want)
        cx.observe('vals', got)
        for k, n in (('dev', shape[0] * shape[1] * shape[2]), ('chp', shape[0] * shape[1]), ('lot', shape[0])):
            if rvs[k] is not None:
                cx.check(f'{k} draws used once', rvs[k].n == starts[k] + n)
                starts[k] += n


def reconfigure(cx, shape, ops, start):
    from gerabaldi.models.devices import LatentVar
    vtype = start
    rvs = {k: (cx.rv(k) if cx.choice('has_' + k, [True, False]) else None) for k in ('dev', 'chp', 'lot')}
    base = cx.real('base')
    lv = LatentVar(rvs['dev'], rvs['chp'], rvs['lot'], deter_val=base, vrtn_type=vtype)
    for i, op in enumerate(ops):
        if op == 'flip':
            vtype = 'offset' if vtype == 'scaling' else 'scaling'
            lv.vrtn_type = vtype
        elif op == 'same':
            lv.vrtn_type = vtype
        elif op == 'base':
            base = cx.real(f'base{i}')
            lv.deter_val = base
        else:
            what, k = op.split('-')
            rvs[k] = cx.rv(f'{k}{i}') if what == 'set' else None
            setattr(lv, f'{k}_vrtn_mdl', rvs[k])
    got = lv.gen_latent_vals(shape[2], shape[1], shape[0])
    cx.eq('layered values after ' + ','.join(ops), got, expect(cx, rvs, base, vtype, dict(dev=0, chp=0, lot=0), shape))
    cx.observe('vals', got)


def fixed(cx, shape, vtype, which):
    """layers that are deterministic: every device, chip or lot gets that value"""
    from gerabaldi.models import Deterministic
    from gerabaldi.models.devices import LatentVar
    v = {k: cx.real(k) for k in which}
    base = cx.real('base') if 'dev' not in which or cx.choice('based', [True, False]) else None
    lv = LatentVar(**{f'{k}_vrtn_mdl': Deterministic(x) for k, x in v.items()}, deter_val=base, vrtn_type=vtype)
    for i in range(2):
        want = 1.0 if vtype == 'scaling' else 0.0
        for x in ([] if base is None else [base]) + list(v.values()):
            want = want * x if vtype == 'scaling' else want + x
        got = lv.gen_latent_vals(shape[2], shape[1], shape[0])
        if not cx.check('one value per device', tuple(got.shape) == tuple(shape)):
            return
        for ix in np.ndindex(*shape):
            cx.eq(f'{ix} (call {i})', got[ix], want)
        vtype = 'offset' if vtype == 'scaling' else 'scaling'
        lv.vrtn_type = vtype


def in_model(cx, shape, dict_form):
    """the same law through a parameter model: each latent variable of a model keeps its own layers"""
    from gerabaldi.models.devices import LatentVar, DegMechMdl, DegPrmMdl, CondShiftMdl, InitValMdl, DeviceMdl
    r = {n: {k: cx.rv(f'{n}_{k}') for k in ('dev', 'chp', 'lot')} for n in ('a', 'b', 'c', 'p')}
    lvs = {n: LatentVar(r[n]['dev'], r[n]['chp'], r[n]['lot'], vrtn_type='offset') for n in r}
    mech = DegMechMdl(cx.func('m', ['time', 'a', 'b']), mdl_name='mech', a=lvs['a'], b=lvs['b'])
    prm = DegPrmMdl({'mech': mech} if dict_form else mech, cond_shift_mdl=CondShiftMdl(cx.func('s', ['c']), c=lvs['c']),
                    compute_eqn=lambda init, cond, mech, p: init + cond + mech + p, prm_name='prm', p=lvs['p'])
    vals = prm.gen_latent_vals(shape[2], shape[1], shape[0])
    z = dict(dev=0, chp=0, lot=0)
    for n, v in (('a', vals['mech']['a']), ('b', vals['mech']['b']), ('c', vals['cond']['c']), ('p', vals['p'])):
        cx.eq(f'latent {n}', v, expect(cx, r[n], None, 'offset', z, shape))


def _shapes(tier):
    s = [(1, 1, 1), (2, 3, 2), (2, 2, 2), (3, 1, 2), (3, 3, 3), (4, 5, 11)]
    if tier == 'thorough':
        s += [(1, 2, 3), (3, 2, 1), (2, 3, 4)]
    return s


def cfg_layer(tier):
    return [dict(shape=s, vtype=v, deter=d) for s in _shapes(tier) for v in ('scaling', 'offset')
            for d in ('real', 'none', 'zero')] + [dict(shape=(12, 13, 14), vtype='offset', deter='none', full=True)]


OPS = [('flip',), ('flip', 'flip'), ('same',), ('clr-chp', 'flip'), ('flip', 'clr-lot'), ('set-dev', 'flip'),
       ('clr-dev', 'flip', 'set-chp'), ('flip', 'set-lot', 'flip'), ('base', 'flip'), ('clr-lot', 'clr-chp')]


def cfg_reconf(tier):
    out = [dict(shape=(2, 3, 2), ops=o, start=s) for o in OPS for s in ('scaling', 'offset')]
    if tier == 'thorough':
        import itertools
        allo = ['flip', 'base'] + [f'{w}-{k}' for w in ('set', 'clr') for k in ('dev', 'chp', 'lot')]
        out += [dict(shape=(2, 2, 3), ops=o, start='scaling') for o in itertools.product(allo, repeat=2)]
        out += [dict(shape=(1, 2, 2), ops=o, start='offset') for o in itertools.product(allo, repeat=3)]
    return out


HARNESS = {
    'layering': dict(fn=layering, configs=cfg_layer),
    'fixed': dict(fn=fixed, configs=lambda t: [dict(shape=(2, 3, 2), vtype=v, which=w) for v in ('scaling', 'offset') for w in (
        ('dev',), ('chp',), ('lot',), ('dev', 'chp', 'lot'))]),
    'reconfigure': dict(fn=reconfigure, configs=cfg_reconf),
    'in_model': dict(fn=in_model, configs=lambda t: [dict(shape=s, dict_form=f) for s in _shapes(t) for f in (0, 1)]),
}
