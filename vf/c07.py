"""C07 - caching model variables never changes results.

Monitors: the same forecast with and without cache; every model and random
compositions evaluated with the values cached for a series, and without, and
against independent formulas, over series of the same length.
"""
import numpy as np
import pandas as pd

from vf import gen, models, obs, ref

PROPERTY = 'C07'
RULE = ('(a) random compositions of all models, incl. dummy models with the '
        'same name, evaluated with and without cached values for several '
        'series; (b) random forecasts with use_cache on and off; non-trivial '
        'when a cached value was used or both forecasts were compared')
FLOORS = {'cached_equals_computed': 800, 'cached_vars_used': 300,
          'equals_formula': 2000, 'run_same': 60, 'run_cached_models': 40}

POOL = ['season_wday', 'season_month', 'season_fourier_yearly',
        'season_wday_2', 'dummy_christmas', 'dummy_month_start', 'linear',
        'constant', 'ramp', 'season_month_old']


def cases(tier, seed):
    n = dict(quick=60, thorough=1500)[tier]
    m = dict(quick=90, thorough=1500)[tier]
    return ([dict(kind='eval', seed=seed * 50021 + i) for i in range(n)] +
            [dict(kind='run', seed=seed * 50021 + i) for i in range(m)])


def rand_dummy(rng, start, n):
    k = rng.randint(4)
    d = [str(gen.grid('D', start, int(i)).date())
         for i in rng.choice(n, 4, replace=False)]
    if k == 0:
        return ['datelist', 'same', [d[:2], d[2:]]]
    if k == 1:
        return ['datelist', 'same', [d[:3]]]
    return ['dummylist', 'same', d[:1 + rng.randint(4)]]


def expr(rng, depth, start, n):
    if depth == 0 or rng.rand() < .2:
        v = rng.rand()
        if v < .3:
            return rand_dummy(rng, start, n)
        return POOL[rng.randint(len(POOL))]
    return ['+*'[rng.randint(2)], expr(rng, depth - 1, start, n),
            expr(rng, depth - 1, start, n)]


def evaluate(case, ctx):
    rng = gen.rng_of('c07', case['seed'])
    n = int(rng.randint(20, 120))
    l_start = [gen.grid_start('D', rng) for _ in range(3)]
    for _ in range(4):
        e = expr(rng, rng.randint(0, 4), l_start[0], n)
        m = models.get(e)
        l_cache = []
        l_arg = []
        for st in l_start:
            l_date = gen.dates('D', st, n)
            x0 = st.weekday()
            x = np.arange(n) + x0
            date = pd.DatetimeIndex(l_date)
            l_arg.append((x, date, l_date))
            # All caches are created first: values of one series may not leak
            l_cache.append(m.init_cache(x, date))
        # Series that share first and last date, and length, or first date
        # and length, or dates in another order
        l_long = gen.dates('D', l_start[0], n + 4)
        for i in range(4):
            drop = 1 + rng.choice(n + 2, 4, replace=False)
            k = np.delete(np.arange(n + 4), drop)
            if i == 2:
                k = k[rng.permutation(n)]
            elif i == 3:
                k = np.arange(n)
                l_long = gen.dates('W', l_start[0], n)
            x = k + l_start[0].weekday() if i < 3 else \
                7 * k + l_start[0].weekday()
            l_date = [l_long[j] for j in k]
            date = pd.DatetimeIndex(l_date)
            l_arg.append((x, date, l_date))
            l_cache.append(m.init_cache(x, date))
        for (x, date, l_date), cache in zip(l_arg, l_cache):
            p = np.array(models.rand_params(e, rng, x))
            for mult in (False, True):
                a = m(x, date, p, is_mult=mult, **cache)
                b = m(x, date, p, is_mult=mult)
                ctx.check(obs.num_close(a, b, 1e-12, 1e-12),
                          'cached_equals_computed',
                          '{}: cached {} computed {}', m.name, a, b)
                ctx.hit('cached_vars_used', len(cache))
                r = [models.ref_eval(e, x[i], l_date[i], p, mult)
                     for i in range(0, n, 7)]
                a = np.broadcast_to(a, (n,))[::7]
                ctx.check(obs.num_close(a, r, 1e-8, 1e-8 * obs.scale_of(r)),
                          'equals_formula', '{}: {} formula {}', m.name, a, r)
                ctx.hit('equals_formula', len(r) - 1)
        # Cached values of a sub-range
        x, date, l_date = l_arg[0]
        i = rng.randint(1, n - 5)
        c = m.init_cache(x[i:i + 4], date[i:i + 4])
        p = np.array(models.rand_params(e, rng, x))
        ctx.check(obs.num_close(
            m(x[i:i + 4], date[i:i + 4], p, **c),
            np.broadcast_to(m(x, date, p, **l_cache[0]), (n,))[i:i + 4],
            1e-12, 1e-12), 'sub_range', '{}: cached sub range', m.name)
        ctx.state(len(l_cache[0]), len(models.leaves(e)))
    # Calendars, which have no formula here
    for name in ('calendar_uk', 'calendar_us', 'calendar_ita'):
        for e2 in ('season_wday', 'linear', 'calendar_uk'):
            m = models.get(name) + models.get(e2)
            m2 = models.get(e2) * models.get(name)
            for mm in (m, m2):
                st = l_start[rng.randint(3)]
                date = pd.date_range(st, periods=400)
                x = np.arange(400.)
                p = rng.uniform(-1, 2, mm.n_params)
                c = mm.init_cache(x, date)
                for mult in (False, True):
                    ctx.check(obs.num_close(
                        mm(x, date, p, is_mult=mult, **c),
                        mm(x, date, p, is_mult=mult), 1e-12, 1e-12),
                        'cached_equals_computed', '{}', mm.name)
                ctx.hit('cached_vars_used', len(c))


def run_case(case, ctx):
    if case['kind'] == 'eval':
        return evaluate(case, ctx)
    rng = gen.rng_of('c07r', case['seed'])
    freq = ['D', 'D', 'D', 'W', 'MS', None][rng.randint(6)]
    n_src = 1 + rng.randint(3)
    l_df = []
    n = int(rng.randint(30, 80))
    s = None
    for i in range(n_src):
        # same length, different dates
        s = gen.make_series(rng, freq, n=n)
        d = s.df()
        if rng.rand() < .3:
            d = ref.add_weights(rng, d)
        l_df.append(d.assign(source='s{}'.format(i)))
    df = pd.concat(l_df, ignore_index=True)
    if freq is not None:
        l_s = [POOL[i] for i in rng.choice(6 if freq == 'D' else 3, 2,
                                           replace=False)]
        if freq == 'D':
            l_s += [rand_dummy(rng, s.start, n)]
        if freq != 'D':
            l_s = [q for q in l_s if q != 'season_wday']
        if n < 25:
            l_s = [q for q in l_s if 'fourier' not in q]
    else:
        l_s = []
    opt = dict(trend=[['linear'], ['constant', 'linear'],
                      [['+', 'linear', 'ramp']]][rng.randint(3)],
               season=l_s, season_add_mult=['add', 'mult', 'both'][
                   rng.randint(3)], extrapolate_years=.2)
    if freq == 'D' and rng.rand() < .3:
        opt['naive'] = ['naive', 'snaive_wday']
    kw = models.kwargs(opt)
    if freq == 'D' and rng.rand() < .3:
        kw['l_model_calendar'] = [models.get('calendar_uk')]
    ctx.hit('run_cached_models', len(l_s))
    a = obs.run(df, seed=case['seed'], include_all_fits=True,
                use_cache=True, **kw)
    b = obs.run(df, seed=case['seed'], include_all_fits=True,
                use_cache=False, **kw)
    d = obs.dict_diff(a, b, rtol=obs.NOISE)
    ctx.check(d is None, 'run_same', 'with cache vs without cache: {}', d)
    ctx.hit('fits_compared', int(a['metadata'].is_fit.sum()))
    ctx.state(freq, n_src, opt['season_add_mult'])
