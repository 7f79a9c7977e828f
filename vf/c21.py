"""C21 - forecasts are equivariant to units and to shifts in time.

Oracle: metamorphic - pairs of recorded runs, from the same state of the
random generator, of a series and of the same series in other units, with
other weights, with repeated samples, or elsewhere in time.
"""
import datetime as dt

import numpy as np
import pandas as pd

from vf import gen, models, obs, ref

PROPERTY = 'C21'
RULE = ('random series, frequencies, weights, gaps and options; factors '
        '1e-9 to 1e10, offsets, weights scaled by 1e-3 to 1e3, samples '
        'repeated 2-4 times, dates shifted by up to 2000 weeks and indexes '
        'by up to 10000; given models, several candidates and automatic '
        'ones; non-trivial when forecast values of a pair were compared')
FLOORS = {'scale': 60, 'offset': 50, 'weights': 40, 'repeated': 40,
          'weeks': 60, 'index': 40, 'intervals': 150, 'selected': 100,
          'values': 4000, 'outliers': 10}

# linear in their parameters, or with a single minimum
LIN = ['constant', 'linear', ['+', 'linear', 'season_wday'],
       ['*', 'linear', 'season_wday'], ['+', 'constant', 'season_wday']]
LEVEL = ['constant', 'linear', ['+', 'linear', 'season_wday'],
         ['+', 'constant', 'season_wday']]
NUM = ['constant', 'linear']
# do not use the calendar
ANY = LIN + ['linear_nondec', ['+', 'linear', 'ramp'], 'ramp',
             ['+', 'constant', 'step'], 'exp', 'sigmoid_step',
             ['*', 'linear', 'ramp'], 'quasilinear', 'decay', 'spike',
             ['+', ['+', 'linear', 'season_wday'], 'ramp'], 'two_steps',
             ['+', 'constant', 'season_wday_2']]


def cases(tier, seed):
    n = dict(quick=1, thorough=20)[tier]
    l = []
    for k, m in (('scale', 70), ('offset', 60), ('weights', 50),
                 ('repeated', 50), ('weeks', 70), ('index', 50)):
        l += [dict(kind=k, seed=seed * 607 + i) for i in range(m * n)]
    return l


def make(rng, dated, spikes=False):
    freq = ['D', 'D', 'D', 'W', 'H'][rng.randint(5)] if dated else None
    n = int(rng.randint(20, 90))
    if freq == 'H':
        n = int(rng.randint(180, 260))
    shape = ['noise', 'walk', 'steps', 'spikes', 'mult', 'trendseason'][
        rng.randint(6)]
    s = gen.make_series(rng, freq, n=n, gaps=rng.rand() < .25,
                        shape='spikes' if spikes else shape)
    d = s.df()
    if rng.rand() < .35:
        d = ref.add_weights(rng, d)
    if rng.rand() < .2 and not spikes:
        d = ref.add_nulls(rng, d)
    return s, d


def options(rng, pool, dated, freq, single=False):
    """Candidates from a pool"""
    if freq != 'D':
        pool = [e for e in pool if 'season_wday' not in str(e)]
    o = dict(season=[], naive=[], include_all_fits=True,
             extrapolate_years=float([.05, .1, .3][rng.randint(3)]))
    if freq == 'H':
        o['extrapolate_years'] = .01
    if dated and rng.rand() < .3:
        o['pi_widening_freq'] = ['W', 'M', 'D'][rng.randint(3)]
    if single:
        k = 1
    else:
        k = 1 + rng.randint(3)
        if rng.rand() < .5:
            o['naive'] = ['naive'] + (['snaive_wday'] if freq == 'D' else [])
    o['trend'] = [pool[i] for i in rng.choice(
        len(pool), min(k, len(pool)), replace=False)]
    return o


def spread(d):
    y = d.y
    if 'weight' in d.columns:
        y = y[d.weight > 0]
    return max(float(y.std()), 1e-3)


def fits_gap(md):
    """Smallest difference of scores to the best"""
    a = np.sort(md.loc[md.is_fit.astype(bool), 'aic_c'].values)
    return np.inf if len(a) < 2 else a[1] - a[0]


def key_col(r):
    return [c for c in ('date', 'x') if c in r.columns][0]


def compare(ctx, mon, r, r2, fy, ft, tol, what, pi=True, select=True,
            costs=None):
    """r2 is r with values and times transformed by fy, ft; fq: intervals"""
    a, b = r['metadata'], r2['metadata']
    ctx.check(list(a.model) == list(b.model) and
              list(a.status) == list(b.status), mon, '{}: candidates {} and '
              '{}', what, list(zip(a.model, a.status)),
              list(zip(b.model, b.status)))
    da, db = r['data'], r2['data']
    same_best = True
    if select:
        if fits_gap(a) > .5:
            ctx.check(list(a.is_best_fit) == list(b.is_best_fit), 'selected',
                      '{}: best is {} and {}', what,
                      list(a.model[a.is_best_fit]),
                      list(b.model[b.is_best_fit]))
        else:
            ctx.hit('close_scores')
            same_best = list(a.is_best_fit) == list(b.is_best_fit)
    for m in a.model[a.is_fit.astype(bool)]:
        x = da.loc[(da.model == m) & ~da.is_actuals]
        y = db.loc[(db.model == m) & ~db.is_actuals]
        k = key_col(x)
        ctx.check(len(x) == len(y) and list(ft(x[k])) == list(y[k]), mon,
                  '{}: {} has samples {}..{} ({}) and {}..{} ({})', what, m,
                  x[k].min(), x[k].max(), len(x), y[k].min(), y[k].max(),
                  len(y))
        e = np.abs(fy(x.y.values) - y.y.values)
        i = int(np.nanargmax(e)) if np.isfinite(e).any() else 0
        ctx.check(np.array_equal(np.isnan(x.y.values), np.isnan(y.y.values))
                  and not (e > tol).any(), mon, '{}: {} forecasts {} at {}, '
                  'but {} in transformed series, {} expected', what, m,
                  x.y.values[i], x[k].values[i], y.y.values[i],
                  fy(x.y.values)[i])
        ctx.hit('values', len(x))
    if pi and same_best and a.is_fit.any():
        x, y = r['forecast'], r2['forecast']
        q = [c for c in x.columns if c.startswith('q')]
        ctx.check(len(x) == len(y) and
                  q == [c for c in y.columns if c.startswith('q')], mon,
                  '{}: forecast tables differ', what)
        for c in q:
            e = np.abs(fy(x[c].values) - y[c].values)
            ctx.check(not (e > 3 * tol).any(), 'intervals', '{}: {} differs '
                      'by {} from the expected one', what, c, np.nanmax(e))


def ident(t):
    return t


def run_case(case, ctx):
    rng = gen.rng_of('C21', case['kind'], case['seed'])
    globals()['case_' + case['kind']](case, ctx, rng)


def auto(rng, o, kind):
    """Sometimes, automatic candidates instead of given ones"""
    if rng.rand() < .3:
        for k in ('trend', 'season', 'naive'):
            o.pop(k, None)
        if rng.rand() < .4 and kind == 'scale':
            o['season_add_mult'] = 'auto'
        return True
    return False


def case_scale(case, ctx, rng):
    dated = rng.rand() < .8
    out = rng.rand() < .2
    s, d = make(rng, dated, out)
    o = options(rng, LIN if dated else NUM, dated, s.freq)
    auto(rng, o, 'scale')
    kw = models.kwargs(o)
    if out:
        kw['find_outliers'] = True
        ctx.hit('outliers')
    r = obs.run(d, seed=case['seed'], **kw)
    c = float(10. ** rng.uniform(-9, 10)) if rng.rand() < .6 else \
        [2., .5, 1000., 1e-3, 4.][rng.randint(5)]
    r2 = obs.run(d.assign(y=d.y * c), seed=case['seed'], **kw)
    if 'season_add_mult' in o:
        ctx.check(list(r['metadata'].add_mult) ==
                  list(r2['metadata'].add_mult), 'scale', 'composition '
                  'depends on the unit {}', c)
    compare(ctx, 'scale', r, r2, lambda v: c * v, ident,
            1e-3 * spread(d) * c, 'values times {}, {}'.format(c, o))
    ctx.state('scale', s.freq, int(np.log10(c)), len(r['metadata']))


def case_offset(case, ctx, rng):
    dated = rng.rand() < .8
    out = rng.rand() < .2
    s, d = make(rng, dated, out)
    o = options(rng, LEVEL if dated else NUM, dated, s.freq)
    a = auto(rng, o, 'offset')
    kw = models.kwargs(o)
    if out:
        kw['find_outliers'] = True
        ctx.hit('outliers')
    r = obs.run(d, seed=case['seed'], **kw)
    c = float(rng.uniform(-1, 1) * 10. ** rng.randint(1, 5))
    r2 = obs.run(d.assign(y=d.y + c), seed=case['seed'], **kw)
    compare(ctx, 'offset', r, r2, lambda v: v + c, ident,
            1e-3 * spread(d) + 1e-6 * abs(c),
            'values plus {}, {}'.format(c, o))
    ctx.state('offset', s.freq, a, len(r['metadata']))


def case_weights(case, ctx, rng):
    dated = rng.rand() < .8
    s, d = make(rng, dated)
    pool = (LIN if dated else NUM)
    o = options(rng, pool, dated, s.freq, single=True)
    kw = models.kwargs(o)
    c = float(10. ** rng.uniform(-3, 3))
    if 'weight' not in d.columns:
        r = obs.run(d, seed=case['seed'], **kw)
        r2 = obs.run(d.assign(weight=c), seed=case['seed'], **kw)
    else:
        r = obs.run(d, seed=case['seed'], **kw)
        r2 = obs.run(d.assign(weight=d.weight * c), seed=case['seed'], **kw)
    compare(ctx, 'weights', r, r2, lambda v: v, ident, 1e-3 * spread(d),
            'weights times {}, {}'.format(c, o))
    a, b = r['optimize_info'], r2['optimize_info']
    ctx.check(obs.num_close(a.cost.astype(float) * c * c,
                            b.cost.astype(float), 1e-4,
                            1e-9 * c * c * float(d.y.std()) ** 2), 'weights',
              'cost {} with weights times {} was {}', b.cost.values, c,
              a.cost.values)


def case_repeated(case, ctx, rng):
    dated = rng.rand() < .8
    s, d = make(rng, dated)
    # gaps with repeated samples are not supported
    d = s.df() if s.keep.all() else gen.make_series(
        rng, s.freq, n=len(s.grid), shape='noise').df()
    if rng.rand() < .4:
        d['weight'] = np.round(rng.uniform(.3, 3, len(d)), 3)
    o = options(rng, LIN if dated else NUM, dated, s.freq, single=True)
    if rng.rand() < .3:
        o['naive'] = ['naive'] + (['snaive_wday'] if s.freq == 'D' else [])
    kw = models.kwargs(o)
    k = int(rng.randint(2, 5))
    d2 = pd.concat([d] * k, ignore_index=True)
    if rng.rand() < .5:
        d2 = d2.iloc[rng.permutation(len(d2))].reset_index(drop=True)
    r = obs.run(d, seed=case['seed'], **kw)
    r2 = obs.run(d2, seed=case['seed'], **kw)
    compare(ctx, 'repeated', r, r2, lambda v: v, ident, 1e-3 * spread(d),
            'samples repeated {} times, {}'.format(k, o), pi=False,
            select=False)


def case_weeks(case, ctx, rng):
    out = rng.rand() < .2
    s, d = make(rng, True, out)
    o = options(rng, ANY, True, s.freq)
    if auto(rng, o, 'weeks'):
        o['l_season_yearly'] = []  # uses the calendar
    if rng.rand() < .3 and 'season' in o:
        o['season_add_mult'] = ['mult', 'both'][rng.randint(2)]
    kw = models.kwargs(o)
    k = int(rng.choice([1, 52, 53, 104, -1, -52, 261, 1000, -700,
                        int(rng.randint(-1500, 2000))]))
    off = pd.Timedelta(days=7 * k)
    if not dt.datetime(1700, 1, 1) < s.grid[0] + off < \
            dt.datetime(2200, 1, 1):
        off = pd.Timedelta(days=7)
    kw2 = dict(kw)
    if out:
        kw['find_outliers'] = kw2['find_outliers'] = True
        ctx.hit('outliers')
    if rng.rand() < .3:
        kw['date_start_actuals'] = d.date.iloc[len(d) // 4]
        kw2['date_start_actuals'] = d.date.iloc[len(d) // 4] + off
    try:
        r = obs.run(d, seed=case['seed'], **kw)
    except Exception as e:
        ctx.hit('raised')
        try:
            obs.run(d.assign(date=d.date + off), seed=case['seed'], **kw2)
        except Exception as e2:
            ctx.check(type(e) is type(e2), 'weeks', '{} and {}', e, e2)
            return
        ctx.check(False, 'weeks', 'fails with {}, but not {} weeks later: {}',
                  e, k, o)
    r2 = obs.run(d.assign(date=d.date + off), seed=case['seed'], **kw2)
    # values given to models are the same
    compare(ctx, 'weeks', r, r2, lambda v: v, lambda t: t + off,
            1e-7 * obs.scale_of(d.y.dropna()),
            '{} weeks later, {}'.format(k, o))
    ctx.state('weeks', s.freq, np.sign(k), len(r['metadata']))


def case_index(case, ctx, rng):
    out = rng.rand() < .25
    s, d = make(rng, False, out)
    o = options(rng, NUM, False, None)
    auto(rng, o, 'index')
    kw = models.kwargs(o)
    k = int(rng.choice([1, 7, -13, 100, 1000, -1000, 10000]))
    if out:
        kw['find_outliers'] = True
        ctx.hit('outliers')
    kw2 = dict(kw)
    if rng.rand() < .3:
        kw['date_start_actuals'] = int(d.x.iloc[len(d) // 4])
        kw2['date_start_actuals'] = kw['date_start_actuals'] + k
    d2 = d.assign(x=d.x + k)
    if rng.rand() < .3:
        d, d2 = d.set_index('x'), d2.set_index('x')
    r = obs.run(d, seed=case['seed'], **kw)
    r2 = obs.run(d2, seed=case['seed'], **kw2)
    compare(ctx, 'index', r, r2, lambda v: v, lambda t: t + k,
            1e-3 * spread(d), 'index plus {}, {}'.format(k, o))
    ctx.state('index', k, len(r['metadata']))
