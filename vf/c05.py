"""C05 - AICc scores and selection of the best model.

Oracle: score recomputed from reported cost, known number of parameters and
the number of used samples; selection recomputed from the metadata table.
"""
import math

import numpy as np
import pandas as pd

from vf import gen, models, obs, ref

PROPERTY = 'C05'
RULE = ('random series (1-3 sources, weights, nulls, repeated samples), '
        'random candidate sets with explicit models, all fits requested, also '
        'candidates with low scores whose optimisation fails; '
        'plus direct calls of the scoring functions; non-trivial when scores '
        'of fitted candidates were recomputed')
FLOORS = {'aic_c': 200, 'best_is_minimum': 60, 'forecast_is_best': 60,
          'same_without_all_fits': 30, 'score_formula': 500,
          'not_converged': 12, 'best_key': 100}

POOL = ['linear', 'constant', 'linear_nondec', ['+', 'linear', 'ramp'],
        ['+', 'constant', 'step'], 'ramp']
POOL_SEASON = ['season_wday', 'null', 'season_wday_2', 'dummy_month_start']


def cases(tier, seed):
    n = dict(quick=200, thorough=3500)[tier]
    l = [dict(kind='direct', freq=None, seed=seed * 7 + k) for k in range(4)]
    for shape in gen.L_SHAPE:
        for freq in (None, 'D', 'W'):
            l.append(dict(kind='run', freq=freq, shape=shape, seed=0))
    l += [dict(kind='unfit', freq=None, seed=seed * 100003 + i)
          for i in range(n // 8)]
    for i in range(n):
        l.append(dict(kind='run', freq='any', shape=None,
                      seed=seed * 100003 + i))
    return l


def aicc(e, n, k):
    return n * math.log(e / n) + 2 * k + 2 * k * (k + 1) / (n - k - 1)


def direct(case, ctx):
    from anticipy import model_utils
    rng = gen.rng_of('c05', case['seed'])
    for _ in range(400):
        k = int(rng.randint(0, 40))
        n = int(rng.randint(0, 60)) if rng.rand() < .7 else \
            int(rng.randint(1, 20000))
        e = float(10. ** rng.uniform(-12, 12))
        if rng.rand() < .1:
            e = 0.
        try:
            v = model_utils.get_aic_c(e, n, k)
        except ValueError:
            ctx.check(n <= k + 1, 'score_domain',
                      'no score for n={} k={} e={}', n, k, e)
            continue
        ctx.check(n > k + 1, 'score_domain', 'score for n={} k={}', n, k)
        if e > 0:
            ctx.check(abs(v - aicc(e, n, k)) <= 1e-9 * abs(v) + 1e-9,
                      'score_formula', 'AICc({}, {}, {}) = {} not {}', e, n,
                      k, v, aicc(e, n, k))
        else:
            ctx.check(v < aicc(1e-300, n, k), 'perfect_fit',
                      'AICc of a perfect fit is {}', v)
    for _ in range(100):
        m = int(rng.randint(1, 8))
        keys = list(rng.permutation(20)[:m])
        vals = np.round(rng.normal(0, 100, m), 1)
        vals[rng.rand(m) < .2] = np.nan
        vals[rng.rand(m) < .1] = -np.inf
        s = pd.Series(vals, index=keys)
        got = model_utils.get_s_aic_c_best_result_key(s)
        if np.isnan(vals).all():
            ctx.check(got is None, 'best_key', 'best of no score is {}', got)
        else:
            ctx.check(s[got] == np.nanmin(vals), 'best_key',
                      'best of {} is {}', s.to_dict(), got)


def unfit(case, ctx):
    """The optimiser fails for the candidate with the lowest score"""
    rng = gen.rng_of('c05u', case['seed'])
    n_src = 1 + int(rng.randint(3))
    freq = [None, 'D', 'W', 'MS'][rng.randint(4)]
    key = 'date' if freq is not None else 'x'
    l_df, l_bad, names = [], [], ['linear', 'constant', 'naive']
    for i in range(n_src):
        d = gen.make_series(rng, freq, n=int(rng.randint(12, 60))).df()
        if rng.rand() < .4:
            d['y'] = d.y * 10. ** rng.randint(-5, 6)
        l_df.append(d.assign(source='s{}'.format(i)))
        l_bad.append(models.slow(d[key], d.y, 'slow{}'.format(i)))
    only = rng.rand() < .3
    good = [] if only else [models.get(e) for e in names[:2]]
    naive = [models.get('naive')] if not only and rng.rand() < .5 else []
    t = good + l_bad
    rng.shuffle(t)
    kw = dict(l_model_trend=t, l_model_season=[], l_model_naive=naive,
              extrapolate_years=float([0., .1][rng.randint(2)]))
    df = pd.concat(l_df, ignore_index=True)
    r = obs.run(df, seed=case['seed'], include_all_fits=True, **kw)
    r2 = obs.run(df, seed=case['seed'], include_all_fits=False, **kw)
    md = r['metadata']
    for i, d in enumerate(l_df):
        src = 's{}'.format(i)
        m = md.loc[md.source == src]
        row = m.loc[m.model == 'slow{}'.format(i)].iloc[0]
        fit = m.loc[m.status == 'FIT']
        if row.status == 'FIT':
            continue
        ctx.hit('not_converged')
        for t in (m, r2['metadata'].loc[r2['metadata'].source == src]):
            b = t.loc[t.is_best_fit.astype(bool)]
            ctx.check(len(b) == (1 if len(fit) else 0), 'one_best',
                      '{} best models for {} fits', len(b), len(fit))
            if len(b):
                ctx.check(b.status.iloc[0] == 'FIT' and bool(
                    b.is_fit.iloc[0]), 'best_is_fitted', 'best model {} not '
                    'fitted: {}', b.model.iloc[0], b.status.iloc[0])
                ctx.check(b.aic_c.iloc[0] <= fit.aic_c.min(),
                          'best_is_minimum', 'best model {} has score {}',
                          b.model.iloc[0], b.aic_c.iloc[0])
        best = list(m.loc[m.is_best_fit.astype(bool)].model)
        for q in (r, r2):
            f = q['forecast']
            f = f.loc[f.source == src]
            ctx.check(set(obs.fc_rows(f).model) == set(best),
                      'forecast_is_best', 'forecast of {} has models {}',
                      best, set(obs.fc_rows(f).model))
            ctx.check(len(obs.fc_rows(f, True)) == len(d), 'one_best',
                      'actuals lost: {} of {}', len(obs.fc_rows(f, True)),
                      len(d))
            o = q['data'].loc[(q['data'].source == src) &
                              ~q['data'].is_actuals.astype(bool)]
            ctx.check(row.model not in set(o.model), 'best_is_fitted',
                      'output of a candidate that was not fitted')
    ctx.state('unfit', freq, n_src, only, len(naive))


def run_case(case, ctx):
    if case['kind'] == 'direct':
        return direct(case, ctx)
    if case['kind'] == 'unfit':
        return unfit(case, ctx)
    rng = gen.rng_of('c05', case['freq'], case['shape'], case['seed'])
    n_src = int([1, 1, 2, 3][rng.randint(4)])
    freq = case['freq']
    if freq == 'any':
        freq = [None, 'D', 'D', 'W', 'MS', 'Q'][rng.randint(6)]
    dated = freq is not None
    l_df = []
    for i in range(n_src):
        # naive models have no score for less than a week of daily samples
        n = int(rng.randint(4, 9)) if freq == 'D' and rng.rand() < .15 \
            else None
        s = gen.make_series(rng, freq, n=n, shape=case['shape'],
                            gaps=rng.rand() < .2)
        d = s.df()
        d['weight'] = 1.
        if rng.rand() < .5:
            d = ref.add_weights(rng, d)
        if rng.rand() < .3:
            d = ref.add_nulls(rng, d)
        if s.keep.all() and rng.rand() < .2:
            d = ref.repeat_samples(rng, d)
        l_df.append(d.assign(source='s{}'.format(i)))
    df = pd.concat(l_df, ignore_index=True)
    dup = any(d.duplicated('date' if dated else 'x').any() for d in l_df)
    l_t = [POOL[i] for i in rng.choice(len(POOL), 1 + rng.randint(3),
                                       replace=False)]
    l_s = []
    if freq == 'D' and rng.rand() < .7:
        l_s = [POOL_SEASON[i] for i in rng.choice(4, 2, replace=False)]
    l_n = [] if dup else [['naive'], [], ['naive'],
                          ['snaive_wday', 'naive'] if freq == 'D' else
                          ['naive']][rng.randint(4)]
    am = ['add', 'mult', 'both'][rng.randint(3)]
    opt = dict(trend=l_t, season=l_s, naive=l_n, season_add_mult=am,
               extrapolate_years=float([0., .1, 1.][rng.randint(3)]))
    kw = models.kwargs(opt)
    r = obs.run(df, seed=case['seed'], include_all_fits=True, **kw)
    k_of = {'naive': 0, 'snaive_wday': 0}
    for t in l_t:
        for q in (l_s or ['null']):
            for op in '+*':
                e = [op, t, q]
                k_of[models.expr_name(e)] = models.n_params(e)
    md = r['metadata']
    ctx.state(freq, n_src, len(l_t), len(l_s), am)
    for i, d in enumerate(l_df):
        src = 's{}'.format(i)
        u = ref.Used(d, dated)
        m = md.loc[md.source == src]
        fit = m.loc[m.is_fit.astype(bool)]
        for _, row in fit.iterrows():
            k = k_of.get(row['model'].split('_fixed_')[0])
            ctx.check(k is not None, 'candidate', 'unknown candidate {}',
                      row['model'])
            c = row['cost']
            if not (c > 0):
                continue
            ctx.check(abs(row['aic_c'] - aicc(c, u.n, k))
                      <= 1e-8 * abs(row['aic_c']) + 1e-8, 'aic_c',
                      'score of {} is {} not {} (cost {} n {} k {})',
                      row['model'], row['aic_c'], aicc(c, u.n, k), c, u.n, k)
        best = m.loc[m.is_best_fit.astype(bool)]
        ctx.check(len(best) == (1 if len(fit) else 0), 'one_best',
                  '{} best models for {} fits', len(best), len(fit))
        if not len(fit):
            continue
        lo = fit.aic_c.min()
        b = best.iloc[0]
        ctx.check(bool(b.is_fit), 'best_is_fitted', 'best model not fitted')
        if not np.isnan(lo):
            ctx.check(b.aic_c <= lo, 'best_is_minimum',
                      'best model {} has score {}, minimum is {}', b.model,
                      b.aic_c, lo)
        ctx.hit('fits', len(fit))
        out = obs.fdata(r, src, b.model)[['date', 'y']]
        dm = r['data'].loc[(r['data'].source == src) &
                           ~r['data'].is_actuals.astype(bool)]
        ctx.check((dm.is_best_fit.astype(bool) ==
                   (dm.model == b.model)).all(), 'best_mark',
                  'best fit rows of the data table are not those of {}',
                  b.model)
        f = r['forecast']
        f = f.loc[(f.source == src)]
        f = obs.fc_rows(f)
        ctx.check(set(f.model) <= {b.model}, 'forecast_is_best',
                  'forecast of {} has models {}', b.model, set(f.model))
        key = 'date'
        ctx.check(
            len(f) == len(out) and
            list(f[key]) == list(out[key]) and
            obs.num_close(f.y, out.y, 1e-12, 0), 'forecast_is_best',
            'forecast table differs from output of best model {}', b.model)
    # The same without all fits
    r2 = obs.run(df, seed=case['seed'], include_all_fits=False, **kw)
    d = obs.table_diff(r['forecast'], r2['forecast'], rtol=obs.NOISE)
    ctx.check(d is None, 'same_without_all_fits',
              'forecast depends on include_all_fits: {}', d)
    m1 = md.loc[md.is_best_fit.astype(bool)].reset_index(drop=True)
    d = obs.table_diff(m1, r2['metadata'], rtol=obs.NOISE)
    ctx.check(d is None, 'best_metadata_only', 'metadata without all fits: '
              '{}', d)
    k1 = r['data'].loc[r['data'].is_actuals.astype(bool) |
                       r['data'].is_best_fit.astype(bool)]
    d = obs.table_diff(k1.reset_index(drop=True), r2['data'], rtol=obs.NOISE)
    ctx.check(d is None, 'best_data_only', 'data without all fits: {}', d)
