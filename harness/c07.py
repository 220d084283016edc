"""C07: all parameters of a chip see the same batch and chip conditions."""
import numpy as np

from harness import lib
from harness.c06 import LAYERS, mdl

BOUNDS = ('up to 3 parameters (degrading and derived) and 3 (one pattern: 8) conditions in different dependency patterns; device counts 1 to '
          '3 that differ between the parameters and from the measured counts, or 3 or 4 for all parameters; shapes up to 3 lots and chips; both variation '
          'types; up to five consecutive steps with the same or different targets and conditions; every draw and target value any real')


class Law:
    """documented generation: one batch and one chip draw per condition and step, device draws per parameter"""

    def __init__(self, cx, rvs, vtypes):
        self.cx, self.rvs, self.vt = cx, rvs, vtypes
        self.at = {n: dict.fromkeys(LAYERS, 0) for n in rvs}

    def op(self, n, v, x):
        return v * x if self.vt[n] == 'scaling' else v + x

    def draw(self, n, k, i):
        return self.rvs[n][k].draw(self.at[n][k] + i)

    def step(self, base, chips, lots, prms):
        """prms: ordered {prm: (conditions, devices)}; a condition name itself means its sensors"""
        out = {}
        batch = {}
        chip = {}
        for n in base:
            if n not in self.rvs:
                continue
            batch[n] = self.op(n, base[n], self.draw(n, 'batch', 0))
            self.at[n]['batch'] += 1
            chip[n] = [[self.op(n, batch[n], self.draw(n, 'chp', l * chips + c)) for c in range(chips)]
                       for l in range(lots)]
            self.at[n]['chp'] += lots * chips
        for prm, (conds, D) in prms.items():
            out[prm] = {}
            for n in conds:
                sensor = n == prm
                L, Cc, Dd = (1, D, 1) if sensor else (lots, chips, D)
                a = np.empty((L, Cc, Dd), dtype=object)
                for l, c, d in np.ndindex(L, Cc, Dd):
                    if n not in self.rvs:
                        a[l, c, d] = base[n]
                        continue
                    v = self.op(n, batch[n], self.draw(n, 'chp', c)) if sensor else chip[n][l][c]
                    a[l, c, d] = self.op(n, v, self.draw(n, 'dev', (l * Cc + c) * Dd + d))
                if n in self.rvs:
                    self.at[n]['dev'] += L * Cc * Dd
                    if sensor:
                        self.at[n]['chp'] += D
                out[prm][n] = self.cx._arr(a)
        return out


def make(cx, full=True):
    from gerabaldi.models import PhysTestEnv
    rvs = {n: {k: cx.rv(n + k) for k in LAYERS} for n in ('temp', 'volt')}
    vt = {'temp': cx.choice('ttype', ['offset', 'scaling']), 'volt': 'offset'}
    env = PhysTestEnv({n: mdl(rvs[n], vt[n]) for n in rvs})
    return rvs, vt, env


def model(cx, pattern):
    """three parameters; returns the device model and the conditions each uses in a stress / measurement step"""
    from gerabaldi.models import DeviceMdl, DegPrmMdl, DegMechMdl, FailMechMdl, CondShiftMdl, CircPrmMdl
    if pattern == 'shared':
        p = {'a': DegPrmMdl({'m': FailMechMdl(lambda time, temp, volt: temp + volt)}, cond_shift_mdl=CondShiftMdl(
                lambda temp: temp)),
             'b': DegPrmMdl({'m': FailMechMdl(lambda time, temp: temp), 'k': FailMechMdl(lambda time, hum: hum)},
                            cond_shift_mdl=CondShiftMdl(lambda volt, hum: volt + hum)),
             'c': CircPrmMdl(lambda a, temp, volt: a + temp - volt)}
        use = {'stress': {'a': ['temp', 'volt'], 'b': ['temp', 'hum']},
               'measure': {'a': ['temp'], 'b': ['volt', 'hum'], 'c': ['temp', 'volt']}}
    elif pattern == 'all':
        p = {'a': DegPrmMdl({'m': FailMechMdl(lambda time, volt, hum, temp: hum + temp + volt)}, cond_shift_mdl=CondShiftMdl(
                lambda volt, temp, hum: temp + hum + volt)),
             'b': DegPrmMdl({'m': FailMechMdl(lambda time, temp: temp), 'k': FailMechMdl(lambda time, hum, temp: hum)},
                            cond_shift_mdl=CondShiftMdl(lambda hum, volt: volt + hum)),
             'c': CircPrmMdl(lambda volt, a, hum, temp: a + temp - volt + hum)}
        use = {'stress': {'a': ['temp', 'volt', 'hum'], 'b': ['temp', 'hum']},
               'measure': {'a': ['temp', 'volt', 'hum'], 'b': ['volt', 'hum'], 'c': ['temp', 'volt', 'hum']}}
    elif pattern == 'many':  # four mechanisms, each with a condition of its own; one parameter equation names a condition
        def eqn(init, cond, m, hum=None):
            return init + cond + m
        p = {'a': DegPrmMdl({'m': FailMechMdl(lambda time, temp: temp)}, compute_eqn=eqn),
             'b': DegPrmMdl({'h': FailMechMdl(lambda time, hum: hum), 'i': FailMechMdl(lambda time: 0 * time),
                             'j': FailMechMdl(lambda time: 0 * time), 'k': FailMechMdl(lambda time, temp: temp),
                             'l': FailMechMdl(lambda time, volt: volt)}),
             'c': CircPrmMdl(lambda b, hum: b + hum)}
        use = {'stress': {'a': ['temp', 'hum'], 'b': ['volt', 'hum', 'temp']},
               'measure': {'a': ['hum'], 'b': [], 'c': ['hum']}}
    elif pattern == 'eight':  # many conditions for one parameter
        p = {'a': DegPrmMdl({'m': FailMechMdl(lambda time, volt, c1, c2, c3, temp, c4, c5, hum: volt)}, cond_shift_mdl=CondShiftMdl(
                lambda c5, c4, temp, c3, hum, c2, c1, volt: temp)),
             'b': DegPrmMdl({'m': FailMechMdl(lambda time, c3, temp: temp), 'k': FailMechMdl(lambda time, c1, c2, volt, c4: c1),
                             'j': FailMechMdl(lambda time, c5, hum: hum)}),
             'c': CircPrmMdl(lambda hum, c1, c5, a, volt, c2, c4, temp, c3: a + temp)}
        every = ['temp', 'volt', 'hum', 'c1', 'c2', 'c3', 'c4', 'c5']
        use = {'stress': {'a': every, 'b': every}, 'measure': {'a': every, 'b': [], 'c': every}}
    elif pattern == 'one':  # a single condition
        p = {'a': DegPrmMdl({'m': FailMechMdl(lambda time, temp: temp)}, cond_shift_mdl=CondShiftMdl(lambda temp: temp)),
             'b': DegPrmMdl({'m': FailMechMdl(lambda time, temp: temp)}),
             'c': CircPrmMdl(lambda temp, a: a + temp)}
        use = {'stress': {'a': ['temp'], 'b': ['temp']}, 'measure': {'a': ['temp'], 'b': [], 'c': ['temp']}}
    else:
        p = {'a': DegPrmMdl({'m': DegMechMdl(lambda time: 0 * time)}),
             'b': DegPrmMdl({'m': FailMechMdl(lambda time, hum: hum), 'k': FailMechMdl(lambda time, volt: volt)}),
             'c': CircPrmMdl(lambda b, hum: b + hum)}
        use = {'stress': {'a': [], 'b': ['volt', 'hum']}, 'measure': {'a': [], 'b': [], 'c': ['hum']}}
    return DeviceMdl(p), use


def generate(cx, pattern, counts, meas, chips, lots, order, same=False, sets=None):
    """direct calls: a stress step, a measurement with sensors, a second stress step"""
    from gerabaldi.models import SimReport, TestSpec, MeasSpec
    rvs, vt, env = make(cx)
    dev, use = model(cx, pattern)
    base = {n: cx.real(n + '0') for n in order}
    rep = SimReport(TestSpec([MeasSpec(counts, base)], num_chps=chips, num_lots=lots))
    law = Law(cx, rvs, vt)
    for i in range(len(sets) if sets else 4 if same else 3):
        if not same:  # otherwise every step repeats the same targets
            base = {n: cx.real(f'{n}{i}') for n in (sets[i] if sets else order)}
        if i % 2 == 0:
            prms = ['a', 'b']
            got = env.gen_env_cond_vals(base, prms, rep, dev, 'stress')
            want = law.step(base, chips, lots, {p: ([n for n in use['stress'][p] if n in base], counts[p]) for p in prms})
        else:
            got = env.gen_env_cond_vals(base, meas, rep, dev, 'measure')
            want = law.step(base, chips, lots, {p: ([n for n in use['measure'].get(p, [p]) if n in base], meas[p]) for p in meas})
        cx.check(f'step {i}: parameters', set(got) == set(want))
        for p in want:
            cx.check(f'step {i}: conditions of {p}', set(got[p]) == set(want[p]))
            for n in want[p]:
                cx.eq(f'step {i}: {n} seen by {p}', got[p][n], want[p][n])
                cx.observe(f'{i}{p}{n}', got[p][n])


def standalone(cx, chips, lots):
    """without a report or device model: counts from the request, every request is a sensor"""
    rvs, vt, env = make(cx)
    law = Law(cx, rvs, vt)
    base = {'temp': cx.real('temp'), 'volt': cx.real('volt'), 'hum': cx.real('hum')}
    req = {'volt': 2, 'temp': 3, 'hum': 2}
    got = env.gen_env_cond_vals(base, req, num_chps=chips, num_lots=lots)
    want = law.step(base, chips, lots, {p: ([p], n) for p, n in req.items()})
    for p in want:
        cx.eq(f'sensors of {p}', got[p][p], want[p][p])


def simulated(cx, pattern, counts, first, chips, lots, same=False):
    """the same law through a simulation: values reported for each parameter and sensor"""
    from gerabaldi.models import TestSpec, MeasSpec, StrsSpec
    from gerabaldi import simulate
    rvs, vt, env = make(cx)
    dev, use = model(cx, pattern)
    law = Law(cx, rvs, vt)
    names = ('hum', 'temp', 'volt')
    base = [{n: cx.real(f'{n}{i}') for n in names} for i in range(3)]
    if same:
        base = [base[0]] * 3
    spec = TestSpec([MeasSpec(first, base[0]), StrsSpec(base[1], 7), MeasSpec(counts, base[2])], chips, lots)
    rep = simulate(spec, dev, env)
    sim = {p: rep.dev_counts[p] for p in 'ab'}  # at least as many as measured (C13)
    m0 = law.step(base[0], chips, lots, {p: (use['measure'].get(p, [p]), n) for p, n in first.items()})
    s = law.step(base[1], chips, lots, {p: (use['stress'][p], sim[p]) for p in ('a', 'b')})
    m1 = law.step(base[2], chips, lots, {p: (use['measure'].get(p, [p]), n) for p, n in counts.items()})
    deg = {p: sum(s[p].values()) for p in s}
    if pattern == 'other':
        deg['a'] = np.zeros((lots, chips, sim['a']))
    for step, (req, m) in enumerate(((first, m0), (counts, m1))):
        for p, n in req.items():
            rows = [v for _, _, _, _, v in lib.rows(rep, p, 2 * step)]
            L, Cc, D = (1, n, 1) if p in names else (lots, chips, n)
            want = []
            for ix in np.ndindex(L, Cc, D):
                if p in names:
                    v = m[p][p][ix]
                elif p == 'c':
                    q = 'b' if pattern == 'other' else 'a'
                    v = deg[q][ix] if step else 0
                    if pattern != 'other':
                        v = v + m[p]['temp'][ix] - m[p]['volt'][ix]
                    if pattern != 'shared':
                        v = v + m[p]['hum'][ix]
                else:
                    v = (deg[p][ix] if step else 0) + sum(x[ix] for x in m[p].values())
                want.append(v)
            cx.eqs(f'reported {p} at step {2 * step}', rows, want)
    cx.observe('v', rep.measurements['measured'].tolist())


def cfg_gen(t):
    out = []
    for pat in ('shared', 'other', 'all', 'many'):
        out += [dict(pattern=pat, counts={'a': 2, 'b': 3, 'c': 1}, meas={'a': 1, 'temp': 2, 'b': 3, 'c': 1}, chips=2,
                     lots=2, order=('temp', 'hum', 'volt')),
                dict(pattern=pat, counts={'a': 1, 'b': 2, 'c': 1}, meas={'volt': 3, 'c': 1, 'hum': 1}, chips=3,
                     lots=1, order=('volt', 'temp', 'hum'))]
        if t == 'thorough':
            out += [dict(pattern=pat, counts={'a': 3, 'b': 1, 'c': 3}, meas={'b': 1, 'a': 2, 'temp': 1, 'volt': 2},
                         chips=1, lots=3, order=('hum', 'volt', 'temp')),
                    dict(pattern=pat, counts={'a': 2, 'b': 2, 'c': 2}, meas={'c': 2, 'a': 2, 'b': 2}, chips=2, lots=3,
                         order=('volt', 'hum', 'temp'))]
    out += [dict(pattern='shared', counts={'a': 12, 'b': 1, 'c': 2}, meas={'temp': 11, 'a': 10, 'c': 1}, chips=11, lots=4,
                 order=('volt', 'temp', 'hum')),
            dict(pattern='shared', counts={'a': 2, 'b': 1, 'c': 1}, meas={'a': 2, 'b': 1, 'volt': 2, 'temp': 1}, chips=2,
                 lots=2, order=('temp', 'hum', 'volt'), same=True)]
    A, B, C = ('temp', 'volt', 'hum'), ('temp',), ('hum', 'volt')
    out += [dict(pattern=pat, counts={'a': 1, 'b': 2, 'c': 1}, meas={'a': 1, 'c': 1, 'b': 2}, chips=2, lots=1, order=A, sets=x)
            for pat in ('shared', 'all') for x in ((B, B, A, A), (A, C, B, A, C))]
    out += [dict(pattern='eight', counts={'a': 2, 'b': 1, 'c': 1}, meas={'c': 1, 'a': 2, 'c4': 2}, chips=2, lots=1, order=x) for x in (
        ('temp', 'volt', 'hum', 'c1', 'c2', 'c3', 'c4', 'c5'), ('c5', 'c4', 'c3', 'c2', 'c1', 'hum', 'volt', 'temp'))]
    out += [dict(pattern=pat, counts={'a': n, 'b': n, 'c': n}, meas={'c': n, 'a': n, 'b': n, 'temp': n}, chips=c, lots=l,
                 order=('volt', 'temp', 'hum')) for pat, n, c, l in (('all', 3, 2, 1), ('shared', 3, 3, 3), ('all', 4, 1, 2))]
    out += [dict(pattern='one', counts={'a': 2, 'b': 1, 'c': 1}, meas={'a': 2, 'c': 1, 'temp': 1}, chips=2, lots=1,
                 order=('temp',), same=same) for same in (True, False)]
    return out


def cfg_sim(t):
    out = []
    for pat in ('shared', 'other', 'all'):
        out += [dict(pattern=pat, counts={'a': 2, 'temp': 2, 'b': 1, 'c': 1}, first={'b': 2, 'volt': 1}, chips=2, lots=1),
                dict(pattern=pat, counts={'c': 2, 'hum': 1, 'temp': 3}, first={'a': 1, 'c': 1}, chips=1, lots=2),
                dict(pattern=pat, counts={'a': 1, 'b': 1, 'temp': 1}, first={'a': 1, 'temp': 1}, chips=2, lots=1, same=True)]
        if t == 'thorough':
            out += [dict(pattern=pat, counts={'c': 2, 'a': 3, 'b': 2}, first={'a': 1, 'temp': 2}, chips=3, lots=2)]
    return out


HARNESS = {
    'generate': dict(fn=generate, configs=cfg_gen),
    'standalone': dict(fn=standalone, configs=lambda t: [dict(chips=c, lots=l) for c, l in ((1, 1), (2, 3))]),
    'simulated': dict(fn=simulated, configs=cfg_sim),
}
