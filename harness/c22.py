"""C22: CBI export mirrors a latent variable and leaves it unchanged."""
import numpy as np

from harness.c17 import arg, cls, meaning, params, value

BOUNDS = ('every combination of layers, variation type, distribution kind and framework; every distribution parameter, '
          'deterministic value and seed; up to 3 exports, with sampling, renaming, retyping and layer changes in between; '
          'shapes up to 2 lots, 3 chips, 2 devices for the sampling afterwards')
STUBS = ('PyMC, Pyro and torch are not installed: their constructors and operations are recorded as a term, in symbolic runs '
         'and in replays, and the term is evaluated by the harness; numpy generators as in C17')
OUTSIDE = 'what PyMC and Pyro do with the exported term; an export that fails half way'

LAYERS = ('dev', 'chp', 'lot')


class Var:
    """a latent variable and what is expected of it"""

    def __init__(self, cx, kinds, vtype, deter, name='var', base=0):
        from gerabaldi.models import LatentVar
        self.cx, self.n = cx, base
        self.std = cx.rng()
        self.kinds, self.p, self.rv, self.seed, self.used = dict(kinds), {}, {}, {}, {}
        self.vtype, self.name = vtype, name
        self.deter = cx.real(f'deter{base or ""}') if deter else None
        for k in kinds:
            self.new(k, kinds[k])
        kw = {f'{k}_vrtn_mdl': v for k, v in self.rv.items()}
        if deter:
            kw['deter_val'] = self.deter
        if vtype != 'scaling' or cx.choice(f'type given{base or ""}', [True, False]):
            kw['vrtn_type'] = vtype
        self.lv = LatentVar(name=name, **kw)

    def new(self, k, kind):
        i = self.n
        self.n += 1
        self.kinds[k] = kind
        self.p[k] = params(self.cx, kind, i)
        self.seed[k] = self.cx.int(f'seed{i}', 0, 2**31)
        self.rv[k] = cls(kind)(**self.p[k], test_seed=self.seed[k])
        self.used[k] = []
        return self.rv[k]

    def set(self, k, kind):
        if kind is None:
            self.kinds.pop(k, None)
            self.rv.pop(k, None)
            setattr(self.lv, f'{k}_vrtn_mdl', None)
        else:
            setattr(self.lv, f'{k}_vrtn_mdl', self.new(k, kind))

    def op(self, a, b):
        return a * b if self.vtype == 'scaling' else a + b

    def check_sampling(self, label, shape=(1, 2, 1)):
        """the variable still samples what it is defined to be"""
        cx = self.cx
        L, Cc, D = shape
        got = self.lv.gen_latent_vals(D, Cc, L)
        if not cx.check(f'{label}: shape', np.shape(got) == (L, Cc, D)):
            return
        num = {'lot': L, 'chp': L * Cc, 'dev': L * Cc * D}
        z = {}
        for k, kind in self.kinds.items():
            self.used[k].append((num[k], self.p[k].get('alpha')))
            z[k] = self.std(kind, self.seed[k], self.used[k])[-1]
        for l, c, d in np.ndindex(L, Cc, D):
            at = {'lot': l, 'chp': l * Cc + c, 'dev': (l * Cc + c) * D + d}
            v = self.deter
            for k in LAYERS:
                if k in z:
                    x = value(self.kinds[k], self.p[k], z[k][at[k]])
                    v = x if v is None else self.op(v, x)
            cx.eq(f'{label}: value {l},{c},{d}', got[l, c, d], v, tol=1e-9)

    def check_export(self, label, fw, default=False):
        self.check_term(label, self.lv.cbi_export() if default else self.lv.cbi_export(fw), fw)

    def check_term(self, label, node, fw):
        cx = self.cx
        parts = []
        # the value the term stands for, if its distributions take the values v_<layer>
        head, v = evaluate(cx, label, node, fw, self.kinds, parts)
        if v is None:
            return
        if fw == 'pymc':
            cx.check(f'{label}: under its name', head == self.name)
        elif len(self.kinds) == 1:
            cx.check(f'{label}: under its name', bool(parts) and parts[0][1] == self.name)
        names = [n for _, n, _ in parts]
        cx.check(f'{label}: distinct names', len(set(names)) == len(names) and None not in names and
                 (fw == 'pyro' or len(parts) == 1 or self.name not in names))
        if not cx.check(f'{label}: every defined layer once', sorted(k for k, _, _ in parts) == sorted(self.kinds)):
            return
        want = None
        for k in LAYERS:
            if k in self.kinds:
                x = cx.real(f'v_{k}')
                want = x if want is None else self.op(want, x)
        cx.eq(f'{label}: layers combined', v, want)
        for k, _, got in parts:
            p = dict(self.p[k])
            if k == 'dev' and self.deter is not None:
                p['mu'] = self.op(self.deter, p['mu'])
            for (n, w), g in zip(p.items(), got):
                cx.eq(f'{label}: {n} of the {k} layer', g, w, tol=1e-9)


def evaluate(cx, label, node, fw, kinds, parts, top=True):
    """(name of a wrapping Deterministic or lone distribution, value)"""
    op = getattr(node, 'op', None)
    if not cx.check(f'{label}: a {fw} term', op is not None):
        return None, None
    if op in ('pymc.Deterministic', 'pyro.deterministic'):
        ns = ('name', 'var') if fw == 'pymc' else ('name', 'value')
        return arg(node, ns, 0), evaluate(cx, label, arg(node, ns, 1), fw, kinds, parts, False)[1]
    if op in ('multiply', 'add'):
        a, b = [evaluate(cx, label, x, fw, kinds, parts, False)[1] for x in node.args[:2]]
        if a is None or b is None:
            return None, None
        return None, a * b if op == 'multiply' else a + b
    name, d = None, node
    if fw == 'pyro':
        if not cx.check(f'{label}: a sample statement', op == 'pyro.sample'):
            return None, None
        name, d = arg(node, ('name', 'fn'), 0), arg(node, ('name', 'fn'), 1)
    kind = str(getattr(d, 'op', '')).split('.')[-1].lower()
    got = meaning(cx, label, kind if kind in ('normal', 'gamma', 'uniform') else 'normal', d, fw)
    if got is None:
        return None, None
    if fw == 'pymc':
        name = got[0]
        got = got[1:]
    same = [k for k in kinds if kinds[k] == kind]
    if len(same) == 1:
        k = same[0]
    else:  # layers with the same kind of distribution are told apart by their names
        k = ([k for k in same if str(name).endswith('_' + k)] + [None])[0]
    if not cx.check(f'{label}: belongs to a layer', k is not None):
        return None, None
    parts.append((k, name, got))
    return name, cx.real(f'v_{k}')


MIX = {'dev': 'normal', 'chp': 'gamma', 'lot': 'uniform'}


def layers(cx, kinds, vtype, fw, deter, shape=(1, 2, 1), default=False):
    kinds = {k: MIX.get(k) if v == 'mix' else v for k, v in kinds.items()}
    if deter:
        kinds['dev'] = 'normal'
    s = Var(cx, kinds, vtype, deter)
    s.check_export('first', fw, default)
    s.check_sampling('afterwards', shape)
    s.check_export('again', fw)
    s.check_sampling('in the end', shape)


def history(cx, kinds, ops, fw, deter):
    """other operations in between"""
    s = Var(cx, kinds, 'scaling', deter)
    for i, o in enumerate(ops):
        if o == 'export':
            s.check_export(f'step {i}', fw)
        elif o == 'other':
            s.check_export(f'step {i}', 'pyro' if fw == 'pymc' else 'pymc')
        elif o == 'sample':
            s.check_sampling(f'step {i}', (1, 1, 2))
        elif o == 'flip':
            s.vtype = 'offset' if s.vtype == 'scaling' else 'scaling'
            s.lv.vrtn_type = s.vtype
        elif o == 'rename':
            s.name = f'other{i}'
            s.lv.name = s.name
        elif o == 'deter':
            s.deter = cx.real(f'deter{i}')
            s.lv.deter_val = s.deter
        elif o == 'mu':
            m = cx.real(f'newmu{i}')
            s.p['dev']['mu'] = m
            s.rv['dev'].mu = m
        elif o == 'clash':
            try_reject(cx, s)
        else:
            k, kind = o.split('=')
            s.set(k, kind if kind != 'none' else None)
    s.check_export('in the end', fw)
    s.check_sampling('in the end', (1, 2, 1))


def try_reject(cx, s):
    o, e = cx.outcome(lambda: s.lv.cbi_export('stan'))
    cx.check('an unsupported framework is rejected', o == 'raise' and isinstance(e, NotImplementedError))


def reject(cx, kinds, vtype, deter=True):
    """deterministic variables and unknown frameworks"""
    from gerabaldi.exceptions import UserConfigError
    s = Var(cx, kinds, vtype, deter)
    if 'dev' in kinds:
        try_reject(cx, s)
    else:
        for fw in ('pymc', 'pyro'):
            o, e = cx.outcome(lambda: s.lv.cbi_export(fw))
            cx.check('a deterministic variable is rejected', o == 'raise' and isinstance(e, UserConfigError))
    s.check_sampling('afterwards')
    if 'dev' in kinds:
        s.check_export('afterwards', 'pymc')


SUBSETS = [('dev',), ('dev', 'chp'), ('dev', 'lot'), ('dev', 'chp', 'lot')]


def cfg_layers(t):
    out = [dict(kinds={k: 'mix' for k in s}, vtype=v, fw=f, deter=d) for s in SUBSETS for v in ('scaling', 'offset')
           for f in ('pymc', 'pyro') for d in (False, True)]
    out += [dict(kinds={k: 'normal' for k in SUBSETS[3]}, vtype=v, fw=f, deter=d, shape=(2, 3, 2)) for v in ('scaling', 'offset')
            for f in ('pymc', 'pyro') for d in (False, True)]
    out += [dict(kinds=k, vtype='offset', fw=f, deter=False, default=f == 'pymc') for f in ('pymc', 'pyro') for k in
            (dict(dev='gamma'), dict(dev='uniform', chp='normal'), dict(dev='gamma', lot='gamma'))]
    return out


OPS = [('export', 'sample', 'export'), ('sample', 'export', 'flip', 'export'), ('export', 'other', 'sample'),
       ('rename', 'export', 'rename'), ('export', 'mu', 'export'), ('chp=none', 'export'), ('export', 'lot=none', 'chp=none'),
       ('lot=gamma', 'export', 'rename'), ('clash', 'export'), ('export', 'chp=none', 'lot=none', 'flip'),
       ('chp=none', 'lot=none', 'export', 'lot=normal'), ('export', 'dev=normal', 'export')]

HARNESS = {
    'layers': dict(fn=layers, configs=cfg_layers),
    'history': dict(fn=history, opts=dict(witnesses=4), configs=lambda t: [
        dict(kinds=k, ops=o, fw=f, deter=d) for o in OPS + [('export', 'deter', 'export')] * 1
        for k, f, d in ((MIX, 'pymc', False), (dict.fromkeys(LAYERS, 'normal'), 'pyro', True))
        if not (o[1] == 'deter' and not d)]),
    'reject': dict(fn=reject, configs=lambda t: [
        dict(kinds=k, vtype=v) for v in ('scaling', 'offset') for k in
        ({}, dict(chp='normal'), dict(lot='gamma', chp='normal'), dict(dev='normal'), dict(dev='normal', chp='uniform'))]),
}
