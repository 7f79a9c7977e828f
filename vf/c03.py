"""C03 - ignored samples have no influence.

Monitor: pairs of executions from the same random state, that differ only in
values of ignored samples (non-interference), compared on fits and forecasts.
"""
import numpy as np
import pandas as pd

from vf import gen, models, obs

PROPERTY = 'C03'
RULE = ('random series (all frequencies, gaps, weights), random options; a '
        'random set of ignored samples (zero weight, null weight, before the '
        'start date, null value) gets other values; non-trivial when both '
        'runs returned fits and forecasts that were compared')
FLOORS = {'same_forecast': 100, 'same_fit': 100, 'changed_values': 200,
          'ignored_zero_weight': 20, 'ignored_null_weight': 10,
          'ignored_before_start': 20, 'ignored_null_value': 10}
ASSUMPTIONS = ['Outlier detection is off, it looks at all samples.']

L_KIND = ['zero_weight', 'null_weight', 'before_start', 'null_value', 'mixed']


def cases(tier, seed):
    n = dict(quick=240, thorough=4500)[tier]
    l = []
    for kind in L_KIND:
        for freq in [None] + gen.L_FREQ:
            l.append(dict(kind=kind, freq=freq, seed=0))
    for i in range(n):
        l.append(dict(kind=L_KIND[i % len(L_KIND)], freq='any',
                      seed=seed * 100003 + i))
    return l


def other_values(rng, y):
    k = rng.randint(5)
    n = len(y)
    if k == 0:
        return rng.uniform(-1e6, 1e6, n)
    if k == 1:
        return np.full(n, 0.)
    if k == 2:
        return np.asarray(y) + rng.uniform(-3, 3, n)
    if k == 3:
        return np.full(n, -1e9)
    return np.full(n, np.nan)


def compare(ctx, r1, r2, what, exact_rows=True):
    m1, m2 = r1['metadata'], r2['metadata']
    cols = ['source', 'model', 'is_fit', 'cost', 'aic_c', 'params',
            'status', 'is_best_fit', 'add_mult', 'freq']
    d = obs.table_diff(m1[cols], m2[cols], rtol=obs.NOISE)
    ctx.check(d is None, 'same_fit', '{}: fits changed, {}', what, d)
    f1, f2 = obs.fdata(r1), obs.fdata(r2)
    d = obs.table_diff(f1[['date', 'source', 'model', 'y', 'is_best_fit']],
                       f2[['date', 'source', 'model', 'y', 'is_best_fit']],
                       rtol=obs.NOISE)
    ctx.check(d is None, 'same_model_output', '{}: output changed, {}', what,
              d)
    p1 = obs.fc_rows(r1['forecast'])
    p2 = obs.fc_rows(r2['forecast'])
    d = obs.table_diff(p1, p2, rtol=obs.NOISE)
    ctx.check(d is None, 'same_forecast',
              '{}: forecast or interval changed, {}', what, d)


def run_case(case, ctx):
    rng = gen.rng_of('c03', case['kind'], case['freq'], case['seed'])
    kind = case['kind']
    s = gen.make_series(rng, case['freq'], gaps=rng.rand() < .3,
                        big=rng.rand() < .12)
    df = s.df()
    n = len(df)
    dated = s.freq is not None
    xcol = 'date' if dated else 'x'
    multi = rng.rand() < .25
    opt = models.rand_options(rng, dated)
    if kind in ('zero_weight', 'null_weight', 'mixed') or rng.rand() < .3:
        df['weight'] = np.round(rng.uniform(.3, 2, n), 2) \
            if rng.rand() < .5 else 1.
    mask = np.full(n, False)
    start = None
    if kind in ('before_start', 'mixed'):
        k = 1 + rng.randint(max(1, n // 3))
        start = df[xcol].iloc[k]
        mask[:k] = True
        ctx.hit('ignored_before_start', k)
        if dated and rng.rand() < .5:
            start = str(start) if s.freq == 'H' else str(start.date())
        opt['date_start_actuals'] = start
    if kind in ('zero_weight', 'null_weight', 'mixed'):
        k = 1 + rng.randint(max(1, n // 3))
        i = rng.choice(n, k, replace=False)
        if rng.rand() < .3:
            i = np.arange(k) if rng.rand() < .5 else n - 1 - np.arange(k)
        mask[i] = True
        df.loc[i, 'weight'] = np.nan if kind == 'null_weight' else 0.
        if kind == 'mixed':
            df.loc[i[::2], 'weight'] = np.nan
        ctx.hit('ignored_' + ('null_weight' if kind == 'null_weight'
                              else 'zero_weight'), k)
    if kind == 'null_value':
        # null values count as samples with weight zero, for given models
        opt.setdefault('trend', ['linear'])
        opt.setdefault('season', ['season_wday', 'null'] if dated else [])
        opt.pop('calendar', None)
        opt.setdefault('naive', ['naive'])
        k = 1 + rng.randint(max(1, (n - 4) // 3))
        i = 2 + rng.choice(n - 4, k, replace=False)
        ctx.hit('ignored_null_value', k)
        df2 = df.copy()
        df.loc[i, 'y'] = np.nan
        if 'weight' not in df2:
            df2['weight'] = 1.
        df2.loc[i, 'weight'] = 0.
        df2.loc[i, 'y'] = other_values(rng, df2.loc[i, 'y'].values)
        ctx.hit('changed_values', k)
    else:
        df2 = df.copy()
        df2.loc[mask, 'y'] = other_values(rng, df2.loc[mask, 'y'].values)
        ctx.hit('changed_values', int(mask.sum()))
    if multi:
        o = gen.make_series(rng, s.freq, n=20).df()
        if 'weight' in df2.columns:
            o['weight'] = 1.
            if 'weight' not in df.columns:
                df['weight'] = 1.
        df = pd.concat([df.assign(source='a'), o.assign(source='b')],
                       ignore_index=True)
        df2 = pd.concat([df2.assign(source='a'), o.assign(source='b')],
                        ignore_index=True)
    kw = models.kwargs(opt)
    r1 = obs.run(df, seed=case['seed'], **kw)
    r2 = obs.run(df2, seed=case['seed'], **kw)
    compare(ctx, r1, r2, kind)
    ctx.state(kind, s.freq, opt['season_add_mult'], multi)
    # Samples before the start do not appear in the output
    if start is not None:
        for name, t in (('data', r1['data']), ('forecast', r1['forecast'])):
            t = t.loc[t.source == 'a'] if multi else t
            ctx.check((t['date'] >= (pd.to_datetime(start) if dated else
                                     start)).all(),
                      'nothing_before_start',
                      '{} table has samples before the start date', name)
    # Ignored samples are visible as actuals, with their values
    if kind in ('zero_weight', 'null_weight') and not multi:
        a = obs.adata(r2)
        ctx.check(obs.num_close(a.y, df2.y, 0, 0), 'ignored_visible',
                  'ignored samples missing in actuals')
