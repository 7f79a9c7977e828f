"""C13 - model composition obeys its algebra.

Oracle: outputs, initial values, bounds, validation and cache of compositions
recomputed from those of their parts, with probe models whose every attribute
is unique, and from independent formulas for built-in models.
"""
import numpy as np
import pandas as pd

from vf import gen, models, obs

PROPERTY = 'C13'
RULE = ('random expressions of depth 1-4 over probe models (unique formula, '
        'initial values, bounds, validator and cache per instance and per '
        'composition kind) and over all built-in models, on random series; '
        'non-trivial when a composition was compared with its parts')
FLOORS = {'sum_product': 500, 'formula': 2000, 'init': 500, 'bounds': 500,
          'validation': 300, 'cache': 300, 'neutral': 200, 'grouping': 200,
          'parts_unchanged': 300, 'identity_of_args': 500}


def cases(tier, seed):
    n = dict(quick=500, thorough=12000)[tier]
    return [dict(kind=['probe', 'builtin'][i % 2], seed=seed * 2237 + i)
            for i in range(n)]


class Probe:
    n = 0

    def __init__(self, rng):
        Probe.n += 1
        i = Probe.n
        fm = models.fm()
        self.k = int(rng.randint(0, 4))
        self.name = ['p{}', 'p{}', 'p{}', 'null{}', 'long_' * 30 + '{}',
                     '{}'][rng.randint(6)].format(i)
        self.add_v, self.mul_v = rng.uniform(.5, 2, 2)
        self.ini = {False: rng.uniform(0, 1, self.k),
                    True: rng.uniform(1, 2, self.k)}
        self.lo = rng.uniform(-9, -5, self.k)
        self.hi = rng.uniform(5, 9, self.k)
        self.valid = [True, None, False, 'assert'][
            [0, 1, 0, 1, 2, 3][rng.randint(6)]]
        self.calls = []
        self.key = 'key_{}'.format(self.name)
        pr = self

        def f_model(a_x, a_date, params, is_mult=False, **kwargs):
            pr.calls.append((a_x, a_date, np.array(params, float), is_mult,
                             kwargs))
            return pr.value(a_x, params, is_mult, kwargs)

        def f_init(a_x=None, a_y=None, a_date=None, is_mult=False):
            pr.init_args = (a_x, a_y, a_date)
            return pr.ini[bool(is_mult)].copy()

        def f_bounds(a_x=None, a_y=None, a_date=None):
            pr.bound_args = (a_x, a_y, a_date)
            return pr.lo.copy(), pr.hi.copy()

        def validate(a_x, a_y, a_date):
            if pr.valid == 'assert':
                assert False
            return pr.valid

        self.model = fm.ForecastModel(
            self.name, self.k, f_model, f_init, f_bounds, validate,
            dict_f_cache={self.key: lambda a_x, a_date: np.cos(a_x) + i})

    def value(self, x, params, m, kwargs):
        c = self.mul_v if m else self.add_v
        y = c * np.sin(np.asarray(x, float) * self.add_v + c)
        for j, p in enumerate(params):
            y = y + p * (j + 1) * np.cos(np.asarray(x, float) * (j + c))
        if self.key in kwargs:
            y = y + kwargs[self.key]
        return y


def snap(m):
    return (m.name, m.n_params, id(m.f_model), id(m.f_init_params),
            id(m.f_bounds), [id(v) for v in m.l_f_validate_input],
            list(m.l_cache_vars), sorted(m.dict_f_cache))


def tree(rng, depth, leaf):
    if depth == 0 or rng.rand() < .2:
        return leaf()
    return ['+*'[rng.randint(2)], tree(rng, depth - 1, leaf),
            tree(rng, depth - 1, leaf)]


def probe_kind(ctx, rng):
    fm = models.fm()
    n = int(rng.randint(8, 40))
    x = np.sort(rng.uniform(0, 50, n))
    y = rng.normal(0, 1, n)
    date = pd.date_range('2018-03-01', periods=n) \
        if rng.rand() < .7 else None

    for _ in range(6):
        l_probe = []

        def leaf():
            if rng.rand() < .12:
                return 'null'
            pr = Probe(rng)
            l_probe.append(pr)
            return pr

        t = tree(rng, int(rng.randint(1, 5)), leaf)
        l_all = []

        def build(t):
            if t == 'null':
                return fm.model_null
            if isinstance(t, Probe):
                return t.model
            a, b = build(t[1]), build(t[2])
            sa, sb = snap(a), snap(b)
            m = a + b if t[0] == '+' else a * b
            ctx.check(snap(a) == sa and snap(b) == sb, 'parts_unchanged',
                      'composition changed its parts')
            if a is fm.model_null or a.name == 'null':
                ctx.check(m is b or snap(m) == sb, 'neutral',
                          'null {} {} is {}', t[0], b.name, m.name)
            elif b.name == 'null':
                ctx.check(m is a or snap(m) == sa, 'neutral',
                          '{} {} null is {}', a.name, t[0], m.name)
            else:
                ctx.check(m.n_params == a.n_params + b.n_params, 'n_params',
                          '{} parameters of {}', m.n_params, m.name)
                ctx.check(m.name == '({}{}{})'.format(a.name, t[0], b.name),
                          'name', 'name {}', m.name)
            l_all.append(m)
            return m

        m = build(t)
        nn = [p for p in l_probe]
        k = sum(p.k for p in nn)
        ctx.check(m.n_params == k, 'n_params', '{} has {} parameters, parts '
                  '{}', m.name, m.n_params, k)
        ctx.check(m.name == name_of(t), 'name', '{} instead of {}', m.name,
                  name_of(t))
        params = rng.normal(0, 1, k)
        top = bool(rng.rand() < .5)
        mult_of = {}
        single = 'null' if t == 'null' else None

        def ev(t, p, mode, kwargs):
            """mode: composition kind around the part"""
            if t == 'null':
                return 1. if mode else 0.
            if isinstance(t, Probe):
                mult_of[t.name] = mode
                return t.value(x, p, mode, kwargs)
            if t[1] == 'null' or is_null(t[1]):
                return ev(t[2], p, mode, kwargs)
            if t[2] == 'null' or is_null(t[2]):
                return ev(t[1], p, mode, kwargs)
            c = size(t[1])
            mm = t[0] == '*'
            a, b = ev(t[1], p[:c], mm, kwargs), ev(t[2], p[c:], mm, kwargs)
            return a * b if mm else a + b

        for kwargs in ({}, dict(extra=3)):
            for pr in l_probe:
                pr.calls.clear()
            got = m(x, date, params, is_mult=top, **kwargs)
            exp = ev(t, params, top, kwargs)
            ctx.check(obs.num_close(np.broadcast_to(got, (n,)),
                                    np.broadcast_to(exp, (n,)), 1e-10,
                                    1e-10), 'sum_product',
                      '{} is not the composition of its parts', m.name)
            for pr in l_probe:
                for c in pr.calls:
                    ctx.check(c[0] is x or np.array_equal(c[0], x),
                              'identity_of_args', 'x given to a part')
                    ctx.check(c[1] is date or list(c[1]) == list(date),
                              'identity_of_args', 'dates given to a part')
                    ctx.check(c[4] == kwargs, 'identity_of_args',
                              'arguments given to a part: {}', c[4])
        # initial values and bounds, in order
        if l_probe:
            ini = np.concatenate(
                [p.ini[mult_of[p.name]] for p in l_probe])
            got = m.f_init_params(x, y, date, is_mult=top)
            ctx.check(np.array_equal(np.asarray(got, float), ini), 'init',
                      'initial values of {}: {} expected {}', m.name, got,
                      ini)
            for pr in l_probe:
                ctx.check(pr.init_args[0] is x and pr.init_args[1] is y,
                          'identity_of_args', 'initial values without data')
            lo, hi = m.f_bounds(x, y, date)
            elo = np.concatenate([p.lo for p in l_probe])
            ehi = np.concatenate([p.hi for p in l_probe])
            ctx.check(np.array_equal(lo, elo) and np.array_equal(hi, ehi),
                      'bounds', 'bounds of {}', m.name)
            v = m.validate_input(x, y, date)
            ev_ok = all(p.valid in (True, None) for p in l_probe)
            ctx.check(bool(v) == ev_ok, 'validation', '{} is valid: {}, '
                      'parts {}', m.name, v, [p.valid for p in l_probe])
            cache = m.init_cache(x, date)
            for pr in l_probe:
                ctx.check(pr.key in cache and np.array_equal(
                    cache[pr.key], pr.model.init_cache(x, date)[pr.key]),
                    'cache', 'cached variables of {}', m.name)
            ctx.check(set(cache) == {p.key for p in l_probe}, 'cache',
                      'cached variables {}', set(cache))
            got = m(x, date, params, is_mult=top, **cache)
            exp = ev(t, params, top, cache)
            ctx.check(obs.num_close(got, exp, 1e-10, 1e-10), 'sum_product',
                      '{} with cached variables', m.name)
        ctx.state('probe', len(l_probe), depth(t))


def is_null(t):
    return t == 'null' or (isinstance(t, list) and is_null(t[1]) and
                           is_null(t[2]))


def depth(t):
    return 1 + max(depth(t[1]), depth(t[2])) if isinstance(t, list) else 0


def size(t):
    if t == 'null':
        return 0
    if isinstance(t, Probe):
        return t.k
    return size(t[1]) + size(t[2])


def name_of(t):
    if is_null(t):
        return 'null'
    if isinstance(t, Probe):
        return t.name
    if is_null(t[1]):
        return name_of(t[2])
    if is_null(t[2]):
        return name_of(t[1])
    return '({}{}{})'.format(name_of(t[1]), t[0], name_of(t[2]))


L_DET = ['linear', 'linear_nondec', 'decay', 'two_steps', 'step', 'ramp',
         'sigmoid_step']


def builtin_kind(ctx, rng):
    n = int(rng.randint(30, 120))
    st = gen.grid_start('D', rng)
    l_date = gen.dates('D', st, n)
    date = pd.DatetimeIndex(l_date)
    x = np.arange(n) + float(st.weekday())
    y = np.abs(gen.values('trendseason', n, rng)) + 5
    for _ in range(4):
        e = models.rand_expr(rng, int(rng.randint(1, 4)), True)
        m = models.get(e)
        k = models.n_params(e)
        ctx.check(m.n_params == k, 'n_params', '{} has {} parameters, parts '
                  '{}', e, m.n_params, k)
        nm = models.expr_name(e)
        ctx.check(m.name == nm, 'name', '{} instead of {}', m.name, nm)
        p = np.array(models.rand_params(e, rng, x))
        got = np.broadcast_to(m(x, date, p), (n,))
        idx = range(0, n, 5)
        exp = np.array([models.ref_eval(e, x[i], l_date[i], p) for i in idx])
        ok = np.isfinite(exp) & (np.abs(exp) < 1e12)
        ctx.check(obs.num_close(got[::5][ok], exp[ok], 1e-8,
                                1e-8 * obs.scale_of(exp[ok])), 'formula',
                  '{}: {}.. expected {}..', e, got[::5][:4], exp[:4])
        ctx.hit('formula', len(exp))
        lo, hi = m.f_bounds(x, y, date)
        l_lo, l_hi = [], []
        for v in models.leaves(e):
            if v == 'null':
                continue
            b = models.get(v).f_bounds(x, y, date)
            l_lo += list(b[0])
            l_hi += list(b[1])
        if l_lo:
            ctx.check(np.array_equal(np.array(lo, float), l_lo) and
                      np.array_equal(np.array(hi, float), l_hi), 'bounds',
                      'bounds of {}', e)
        v = m.validate_input(x, y, date)
        ctx.check(bool(v) == all(models.get(q).validate_input(x, y, date)
                                 for q in models.leaves(e)), 'validation',
                  '{}', e)
        c = set()
        for q in models.leaves(e):
            c |= set(models.get(q).init_cache(x, date))
        ctx.check(set(m.init_cache(x, date)) == c, 'cache',
                  'cached variables of {}', e)
    # grouping, order and the neutral element
    for op in '+*':
        l = [models.rand_expr(rng, int(rng.randint(0, 2)), True, null=0)
             for _ in range(3)]
        a, b, c = [models.get(v) for v in l]
        p = [np.array(models.rand_params(v, rng, x)) for v in l]
        if op == '+':
            m1, m2, m3 = (a + b) + c, a + (b + c), (c + a) + b
        else:
            m1, m2, m3 = (a * b) * c, a * (b * c), (c * a) * b
        y1 = m1(x, date, np.concatenate(p))
        y2 = m2(x, date, np.concatenate(p))
        y3 = m3(x, date, np.concatenate([p[2], p[0], p[1]]))
        ok = np.isfinite(y1) & (np.abs(y1) < 1e12)
        for q in (y2, y3):
            ctx.check(obs.num_close(y1[ok], q[ok], 1e-9,
                                    1e-9 * obs.scale_of(y1[ok])),
                      'grouping', 'grouping or order of {} {} changes output',
                      op, l)
        for mm in (m2, m3):
            ctx.check(mm.n_params == m1.n_params, 'grouping',
                      'number of parameters')
        null = models.get('null')
        for z in (null + a, a + null, null * a, a * null):
            ctx.check(z.name == a.name and z.n_params == a.n_params and
                      np.allclose(z(x, date, p[0]), a(x, date, p[0]), 1e-9,
                                  1e-9, equal_nan=True), 'neutral',
                      'null model is not neutral for {}', a.name)
    # initial values of models with a deterministic guess
    l = [L_DET[i] for i in rng.randint(0, len(L_DET), 3)]
    for op in '+*':
        m = models.get([op, [op, l[0], l[1]], l[2]])
        got = np.asarray(m.f_init_params(x, y, date), float)
        exp = np.concatenate([np.asarray(models.get(v).f_init_params(
            x, y, date, is_mult=op == '*'), float) for v in l])
        ctx.check(np.allclose(got, exp, rtol=1e-12), 'init',
                  'initial values of {}: {} expected {}', m.name, got, exp)
    ctx.state('builtin', *l)


def run_case(case, ctx):
    rng = gen.rng_of('c13', case['seed'])
    if case['kind'] == 'probe':
        probe_kind(ctx, rng)
    else:
        builtin_kind(ctx, rng)
