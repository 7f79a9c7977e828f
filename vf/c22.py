"""C22 - any valid series gives a complete, well-formed result.

Monitor: an online checker of the contract of the forecast function - no
error, the documented tables and columns, every sample of the input reported
once, one best model at most, finite values - over a wide random workload of
valid inputs and options, with emphasis on degenerate ones.
"""
import datetime as dt

import numpy as np
import pandas as pd

from vf import gen, models, obs, ref

PROPERTY = 'C22'
RULE = ('random valid series: lengths from 1, all frequencies, constant, '
        'zero, integer, tiny and huge values, null and zero weights, leading '
        'and trailing null values, gaps, repeated samples, time zones, '
        'indexes, several sources; random options, models and start dates; '
        'non-trivial when the tables of a finished forecast were checked')
FLOORS = {'finished': 250, 'columns': 250, 'actuals': 250, 'best': 250,
          'finite': 150, 'not_fitted': 20, 'empty': 3, 'degenerate': 80,
          'interval': 100, 'sources': 15}

COL_DATA = {'date', 'model', 'y', 'is_actuals', 'is_best_fit', 'source',
            'source_long', 'weight'}
COL_META = {'source', 'model', 'weights', 'actuals_x_range', 'freq',
            'is_fit', 'cost', 'aic_c', 'params_str', 'status', 'source_long',
            'params', 'is_best_fit'}
COL_OPT = {'source', 'model', 'success', 'params_str', 'cost', 'optimality',
           'iterations', 'status', 'jac_evals', 'message', 'source_long',
           'params'}
STATUS = {'FIT', 'NO-FIT', 'TS_TOO_SHORT', 'INPUT_ERR', 'EMPTY_TS'}


def cases(tier, seed):
    n = dict(quick=1, thorough=14)[tier]
    l = [dict(kind='any', seed=seed * 701 + i) for i in range(260 * n)]
    l += [dict(kind='short', seed=seed * 701 + i) for i in range(160 * n)]
    l += [dict(kind='sources', seed=seed * 701 + i) for i in range(30 * n)]
    l += [dict(kind='empty', seed=seed * 701 + i) for i in range(6)]
    return l


def degenerate(rng, d, ctx):
    """Replace values, weights of a series"""
    n = len(d)
    k = rng.randint(12)
    y = d.y.values.copy()
    if k == 0:
        y = np.full(n, float([0, 1, -3, 1e-12, 1e12, 5][rng.randint(6)]))
    elif k == 1:
        y = np.round(y)
    elif k == 2:
        y = y * [1e-8, 1e8, -1., 1e-3][rng.randint(4)]
    elif k == 3:
        y[:] = 0.
        y[rng.randint(n)] = 100.
    elif k == 4:  # leading or trailing null values
        m = rng.randint(0, n + 1)
        if rng.rand() < .5:
            y[:m] = np.nan
        else:
            y[n - m:] = np.nan
    elif k == 5:
        y[rng.rand(n) < .5] = np.nan
    elif k == 6:
        y[:] = np.nan
    elif k == 7:
        y = np.arange(n) * 1.
    elif k == 8:
        y = np.where(np.arange(n) % 2, 10., -10.)
    elif k == 9:
        y = y - y.mean()
    d = d.assign(y=y)
    if rng.rand() < .4:
        w = [np.zeros(n), np.where(np.arange(n) < rng.randint(n + 1), 0., 1.),
             np.where(np.arange(n) < rng.randint(n + 1), 1., 0.),
             (rng.rand(n) < .5) * 1., np.full(n, 1e-6), np.full(n, 1e6),
             np.where(rng.rand(n) < .3, np.nan, 1.)][rng.randint(7)]
        d['weight'] = w
    ctx.hit('degenerate')
    return d


def pool_ok(o, dated):
    """Models with dates are not valid for numeric indexes"""
    return dated or not any(models.needs_date(e) for k in
                            ('trend', 'season', 'naive', 'calendar')
                            for e in o.get(k, []))


def options(rng, s, dated):
    o = models.rand_options(rng, dated)
    if s.freq == 'H':
        o['extrapolate_years'] = min(o['extrapolate_years'], .1)
    if not dated:
        o.pop('calendar', None)
        if not pool_ok(o, False):
            for k in ('trend', 'season', 'naive'):
                o.pop(k, None)
    if rng.rand() < .15:
        # Values of x below zero are out of range for fractional powers
        o['trend'] = [models.rand_expr(
            rng, 2, dated, pool=[v for v in sorted(models.REF) if (
                dated or v not in models.NEED_DATE) and v != 'quasilinear'
                and v != 'season_month_old'], null=.15)]
        o['season'] = o.get('season', [])
    if dated and rng.rand() < .1:
        o['l_season_yearly'] = [[], ['season_month'], ['null'],
                                ['season_fourier_yearly', 'null']][
            rng.randint(4)]
    if dated and rng.rand() < .1:
        o['l_season_weekly'] = [[], ['season_wday_2'], ['null']][
            rng.randint(3)]
    if rng.rand() < .2:
        o['find_outliers'] = True
    # A forecast needs some candidate
    if o.get('naive') == [] and o.get('trend') == []:
        o['naive'] = ['naive']
    return o


def kwargs(o):
    kw = models.kwargs(o)
    for k in ('l_season_yearly', 'l_season_weekly'):
        if k in o:
            kw[k] = [models.get(e) for e in o[k]]
    return kw


def form(rng, d, dated, ctx):
    """The same series in another documented form"""
    kw = {}
    if dated and rng.rand() < .1:
        d = d.assign(date=pd.DatetimeIndex(d.date).tz_localize(
            ['UTC', 'Europe/London', 'Asia/Tokyo'][rng.randint(3)],
            ambiguous=True, nonexistent='shift_forward'))
        ctx.hit('tz')
    k = rng.rand()
    if k < .15:
        d = d.set_index('date' if dated else 'x')
        if 'weight' not in d.columns and rng.rand() < .5:
            d = d.y.rename([None, 'v'][rng.randint(2)])
    elif k < .3:
        d = d.rename(columns=dict(y='value', date='day', x='pos',
                                  weight='w'))
        kw = dict(col_name_y='value', col_name_date='day', col_name_x='pos',
                  col_name_weight='w')
    elif k < .4 and dated and str(d.date.dt.tz) == 'None':
        d = d.assign(date=d.date.astype(str))
    elif k < .5:
        d = d.iloc[rng.permutation(len(d))]
    return d, kw


def run_case(case, ctx):
    rng = gen.rng_of('C22', case['kind'], case['seed'])
    if case['kind'] == 'empty':
        return case_empty(case, ctx, rng)
    if case['kind'] == 'sources':
        return case_sources(case, ctx, rng)
    short = case['kind'] == 'short'
    s = gen.make_series(rng, n=int(rng.randint(1, 12)) if short else None,
                        gaps=(not short) and rng.rand() < .2,
                        big=not short and rng.rand() < .15)
    dated = s.freq is not None
    d = s.df()
    if not dated and rng.rand() < .35:
        m = len(d)
        d['x'] = [d.x + .1, d.x / 2 - .3, d.x * .1 + 1 / 3.,
                  np.cumsum(rng.uniform(.1, 2.5, m)) + .7, d.x * 1.5,
                  d.x * 7., np.cumsum(rng.randint(1, 4, m)) + .05][
            rng.randint(7)]
        ctx.hit('fractional')
    if rng.rand() < .45:
        d = degenerate(rng, d, ctx)
    else:
        if rng.rand() < .3:
            d = ref.add_weights(rng, d)
        if rng.rand() < .2:
            d = ref.add_nulls(rng, d)
    if s.keep.all() and rng.rand() < .12 and (
            dated or d.x.diff().round(6).nunique() <= 1):
        d = ref.repeat_samples(rng, d)
        ctx.hit('repeated')
    o = options(rng, s, dated)
    if len(d) != int(s.keep.sum()):
        o.pop('find_outliers', None)  # rejected explicitly
    kw = kwargs(o)
    d2, kwc = form(rng, d, dated, ctx)
    if rng.rand() < .2:
        i = rng.randint(len(d))
        key = d['date' if dated else 'x']
        start = key.iloc[i]
        if rng.rand() < .2:
            start = key.min() - (pd.Timedelta(days=30) if dated else 5)
        elif rng.rand() < .2:
            start = key.max() + (pd.Timedelta(days=3) if dated else 2)
        if dated:
            dt_col = d2.index if isinstance(d2.index, pd.DatetimeIndex) else \
                pd.DatetimeIndex(d2[kwc.get('col_name_date', 'date')])
            if dt_col.tz is not None:
                start = start.tz_localize(dt_col.tz)
        kw['date_start_actuals'] = start
        ctx.hit('start')
    kw.update(kwc)
    h = obs.df_hash(d2)
    try:
        r = obs.run(d2, seed=case['seed'], **kw)
    except Exception as e:
        import traceback
        ctx.check(False, 'finished', lambda: 'series {} n={} {}, options {}, '
                  'start {}: {}: {}\n{}'.format(
                      s.label, len(d), s.shape, o,
                      kw.get('date_start_actuals'), type(e).__name__, e,
                      traceback.format_exc()[-1500:]))
    ctx.hit('finished')
    ctx.check(obs.df_hash(d2) == h, 'finished', 'input changed')
    inspect(ctx, r, d, dated, o, kw)
    ctx.state(s.freq, len(d) > 3, o.get('season_add_mult'),
              tuple(sorted(k for k in o)))


def case_empty(case, ctx, rng):
    k = case['seed'] % 3
    d = [pd.DataFrame(dict(date=pd.to_datetime([]), y=[])),
         pd.DataFrame(dict(x=[], y=[])), pd.Series([], dtype=float)][k]
    for simplify in (True, False):
        r = obs.run(d, simplify_output=simplify)
        ctx.check(r is None, 'empty', 'result for an empty table: {}', r)


def case_sources(case, ctx, rng):
    dated = rng.rand() < .8
    l = []
    m = int(rng.randint(2, 5))
    for i in range(m):
        fr = ['D', 'W', 'MS', 'QS', 'D'][rng.randint(5)] if dated else None
        s = gen.make_series(rng, fr, n=int(rng.randint(1, 30)))
        d = s.df()
        if rng.rand() < .5:
            d = degenerate(rng, d, ctx)
        l += [d.assign(source='s{}'.format(i))]
    d = pd.concat(l, ignore_index=True)
    o = options(rng, s, dated)
    if rng.rand() < .4:
        o['find_outliers'] = True
    kw = kwargs(o)
    try:
        r = obs.run(d, seed=case['seed'], **kw)
    except Exception as e:
        import traceback
        ctx.check(False, 'finished', lambda: 'sources {}, options {}: {}: {}'
                  '\n{}'.format(d.groupby('source').size().to_dict(), o,
                                type(e).__name__, e,
                                traceback.format_exc()[-1500:]))
    ctx.hit('finished')
    for src in d.source.unique():
        one = {k: r[k].loc[r[k].source == src] for k in
               ('data', 'metadata', 'optimize_info', 'forecast')}
        inspect(ctx, one, d.loc[d.source == src].dropna(axis=1, how='all')
                .assign(y=d.y), dated, o, kw, src)
    ctx.hit('sources')


def inspect(ctx, r, d, dated, o, kw, src='src'):
    ctx.check(isinstance(r, dict) and set(r) == {
        'forecast', 'data', 'metadata', 'optimize_info'}, 'columns',
        'tables {}', r and list(r))
    da, md, oi, f = (r[k] for k in ('data', 'metadata', 'optimize_info',
                                    'forecast'))
    for t, cols, name in ((da, COL_DATA, 'data'), (md, COL_META, 'metadata'),
                          (oi, COL_OPT, 'optimize_info'),
                          (f, {'date', 'source', 'is_actuals', 'model', 'y'},
                           'forecast')):
        ctx.check(cols <= set(t.columns), 'columns', '{} lacks {}', name,
                  sorted(cols - set(t.columns)))
        ctx.check(t.index.is_unique and t.columns.is_unique, 'columns',
                  'index of {} is {}', name, list(t.index)[:20])
        ctx.check(not t[[c for c in ('source', 'model', 'is_actuals')
                         if c in t.columns]].isnull().any().any(), 'columns',
                  '{} has null values', name)
    ctx.check(set(md.status) <= STATUS, 'columns', 'status {}',
              set(md.status))
    ctx.check(((md.status == 'FIT') == md.is_fit.astype(bool)).all(),
              'columns', 'status {} is_fit {}', list(md.status),
              list(md.is_fit))
    # Actuals: each sample used, once
    key = 'date' if dated else 'x'
    e = d.copy()
    if kw.get('date_start_actuals') is not None:
        st = kw['date_start_actuals']
        if dated and st.tzinfo is not None:
            st = st.tz_localize(None)
        e = e.loc[e[key] >= st]
    a = da.loc[da.is_actuals.astype(bool)]
    t = a.date
    if dated:
        t = pd.DatetimeIndex(t).tz_localize(None)
    got = sorted(zip(t, a.y.fillna(-1e300)))
    exp = sorted(zip(e[key], e.y.fillna(-1e300)))
    ctx.check(len(got) == len(exp) and all(
        g[1] == x[1] for g, x in zip(got, exp)), 'actuals', '{} samples of '
        'actuals reported, {} expected, first {} and {}', len(got), len(exp),
        got[:3], exp[:3])
    # One best model at most, one if any was fitted
    n_best = int(md.is_best_fit.sum())
    any_fit = bool(md.is_fit.any()) or n_best > 0 or \
        bool((~da.is_actuals.astype(bool)).any())
    ctx.check(n_best <= 1, 'best', '{} best models: {}', n_best,
              list(md.model[md.is_best_fit]))
    fc = da.loc[~da.is_actuals.astype(bool)]
    ctx.check(set(fc.loc[fc.is_best_fit, 'model']) <=
              set(md.model[md.is_best_fit]), 'best', 'best in data {}',
              set(fc.loc[fc.is_best_fit, 'model']))
    if any_fit and md.aic_c[md.is_fit.astype(bool)].notnull().any():
        ctx.check(n_best == 1, 'best', 'models fitted, none is best: {}',
                  list(zip(md.model, md.status, md.aic_c)))
    ctx.check(np.isfinite(fc.y.astype(float)).all(), 'finite', lambda:
              'forecast values not finite: {}, options {}'.format(
                  fc.loc[~np.isfinite(fc.y)].iloc[:3], o))
    ff = f.loc[~f.is_actuals.astype(bool)]
    if n_best == 0:
        ctx.hit('not_fitted')
        ctx.check(not len(fc.loc[fc.is_best_fit]), 'best', 'forecasts '
                  'without best model')
    fa = f.loc[f.is_actuals.astype(bool)]
    ctx.check(len(fa) == int(e.y.notnull().sum()), 'actuals', 'forecast '
              'table has {} actuals, {} expected', len(fa),
              int(e.y.notnull().sum()))
    ctx.check(not ff.duplicated(['date']).any(), 'actuals', 'repeated '
              'forecast dates')
    if len(ff):
        q = [c for c in ff.columns if c.startswith('q')]
        q1, q2 = kw.get('pi_q1', 5), kw.get('pi_q2', 20)
        need = ['q{}'.format(v) for v in (q1, q2, 100 - q2, 100 - q1)]
        ctx.check(set(need) <= set(q), 'columns', 'interval {}', q)
        v = ff[need].values.astype(float)
        ctx.check(np.isfinite(v).all() and np.isfinite(ff.y).all(),
                  'interval', lambda: 'interval not finite: {} of {}, {}'
                  .format(ff.loc[~np.isfinite(v).all(axis=1)].iloc[:3],
                          md.model[md.is_best_fit].tolist(), o))
        ctx.check((np.diff(np.sort(v, axis=1) - v) == 0).all() or
                  (v[:, 0] <= v[:, 3]).all(), 'interval', 'not sorted')
        best = fc.loc[fc.is_best_fit]
        ctx.check(len(ff) == len(best), 'interval', 'forecast table has {} '
                  'forecasts, best model {}', len(ff), len(best))


def known():
    """Monthly series dated on the 15th"""
    d = pd.DataFrame(dict(date=pd.to_datetime(
        ['2018-{:02d}-15'.format(m) for m in range(1, 13)]),
        y=np.arange(12.) + gen.wiggle(12)))
    try:
        obs.run(d, extrapolate_years=.5)
        fails = False
    except Exception:
        fails = True
    yield 'mid_period_dates', fails, 'forecast of mid-month dates crashes'
