"""C17 - outlier detection flags spikes and steps, and only ignores them.

Oracles: series with known outliers (ground truth by construction),
equivariance of flags, and equality of forecasts with weight zero at the
flagged spikes.
"""
import datetime as dt

import numpy as np
import pandas as pd

from vf import gen, models, obs, ref

PROPERTY = 'C17'
RULE = ('series with known outliers: none, an isolated spike of 1-3 samples, '
        'an isolated step, or several outliers far apart, at random '
        'positions, heights just above or far above the documented '
        'threshold, both signs, dates of all frequencies or numeric x; '
        'random series under exact changes of offset, unit and position; '
        'forecasts with outlier detection against forecasts with explicit '
        'weights; non-trivial when flags were compared')
FLOORS = {'flags': 600, 'none': 100, 'spike': 150, 'step': 80, 'several': 60,
          'equivariant': 600, 'same_forecast': 60, 'ignored': 60}


def cases(tier, seed):
    n = dict(quick=240, thorough=6000)[tier]
    return ([dict(kind='known', seed=seed * 4801 + i) for i in range(n * 2)] +
            [dict(kind='equiv', seed=seed * 4801 + i) for i in range(n)] +
            [dict(kind='run', seed=seed * 4801 + i) for i in range(n // 2)])


def flags(df, **kw):
    from anticipy import forecast_models
    h = obs.df_hash(df)
    r = forecast_models.get_model_outliers(df, **kw)
    assert len(r) == 2
    if obs.df_hash(df) != h:
        return None
    return np.asarray(r[0]), np.asarray(r[1])


def table(rng, y, freq=None):
    n = len(y)
    if freq is None:
        freq = [None, 'D', 'W', 'MS', 'H', 'Q'][rng.randint(6)]
    if freq == 'num':
        freq = None
    if freq is None:
        x0 = int([0, 1, -7, 1000][rng.randint(4)])
        if rng.rand() < .3:
            step = [.5, .25, .1, 2., 7.][rng.randint(5)]
            return freq, pd.DataFrame(dict(x=x0 + step * np.arange(n), y=y))
        return freq, pd.DataFrame(dict(x=np.arange(x0, x0 + n), y=y))
    st = gen.grid_start(freq, rng)
    l = gen.dates(freq, st, n)
    x = [gen.x_of_date(t, l[0]) for t in l]
    return freq, pd.DataFrame(dict(date=pd.to_datetime(l), x=x, y=y))


def tukey(d):
    q1, q3 = np.percentile(d, [25, 75])
    return q1 - 1.5 * (q3 - q1), q3 + 1.5 * (q3 - q1)


def quiet(rng, n):
    """A series whose changes are all unremarkable"""
    kind = rng.randint(5)
    slope = float(rng.choice([0., 0., 1., -2.5]))
    for _ in range(50):
        if kind == 0:
            d = rng.uniform(-1, 1, n - 1)
        elif kind == 1:
            d = rng.uniform(-1, 1, n - 1) + slope
        elif kind == 2:
            d = rng.choice([-1., 1.], n - 1) + slope
        elif kind == 3:
            d = np.full(n - 1, slope)
        else:
            d = np.sin(np.arange(n - 1) * 1.3) + slope
        lo, hi = tukey(d)
        if kind == 3 or (d > lo + .05).all() and (d < hi - .05).all():
            return np.concatenate([[0.], d])
    return np.concatenate([[0.], np.full(n - 1, slope)])


def run_case(case, ctx):
    rng = gen.rng_of('c17', case['kind'], case['seed'])
    if case['kind'] == 'equiv':
        return equiv(ctx, rng)
    if case['kind'] == 'run':
        return forecast_case(ctx, rng, case)
    n = int(rng.randint(16, 120))
    what = ['none', 'spike', 'spike', 'step', 'several'][rng.randint(5)]
    if what == 'several':
        n = int(rng.randint(60, 160))
    # changes within the window are one spike
    window = 3 if what == 'several' or rng.rand() < .5 else \
        int([1, 2, 4, 5, 7][rng.randint(5)])
    for attempt in range(20):
        d = np.round(quiet(rng, n) * 64) / 64
        y = 64. + np.cumsum(d)
        if rng.rand() < .3 and what == 'none':
            y = np.full(n, float(rng.randint(-5, 100)))
        l_out = []
        if what != 'none':
            k = 1 if what != 'several' else int(rng.randint(2, 4))
            gap = n // (k + 1)
            for j in range(k):
                kind = what if what != 'several' else \
                    ['spike', 'step'][rng.randint(2)]
                if k == 1:
                    p = int(rng.randint(1, n - 4))
                    if rng.rand() < .15:
                        p = [1, 2, n - 2, n - 3][rng.randint(4)]
                else:
                    p = int(gap * (j + 1) + rng.randint(-4, 5))
                length = int(rng.randint(1, window + 1)) if kind == 'spike' else None
                if kind == 'spike' and p + length > n - 1:
                    length = n - 1 - p
                sign = float(rng.choice([-1, 1]))
                l_out.append((kind, p, length, sign))
        if rng.rand() < .3:
            h = np.round(400. * (1 + rng.rand()))
        else:
            # relative to the thresholds
            lo, hi = tukey(np.diff(y))
            h = (hi - lo) * rng.uniform(.55, 3) + .1 + \
                rng.uniform(0, 2) * np.abs(np.diff(y)).max()
            if h - 2 * np.abs(np.diff(y)).max() <= .53 * (hi - lo):
                continue
            h = np.ceil(h * 64) / 64
        for kind, p, length, sign in l_out:
            if kind == 'spike':
                y[p:p + length] += sign * h
            else:
                y[p:] += sign * h
        # ground truth by the documented rule
        dd = np.diff(y)
        lo, hi = tukey(dd)
        out = set(np.nonzero((dd < lo) | (dd > hi))[0] + 1)
        want = set()
        for kind, p, length, sign in l_out:
            want |= {p} if kind == 'step' else {p, p + length}
        if out == want and not any(
                min(abs(v - lo), abs(v - hi)) < 1e-6 for v in dd
                if lo != hi):
            break
    else:
        ctx.hit('not_isolated')
        return
    freq, df = table(rng, y)
    if rng.rand() < .3:
        df['weight'] = np.round(rng.uniform(.1, 2, n), 2)
    r = flags(df) if window == 3 else flags(df, window=window)
    ctx.check(r is not None, 'unchanged', 'input was changed')
    step, spike = r
    e_step = np.full(n, False)
    e_spike = np.full(n, False)
    for kind, p, length, sign in l_out:
        if kind == 'spike':
            e_spike[p:p + length] = True
        else:
            e_step[p] = True
    shape_ok(ctx, step, spike, n)
    ctx.check(np.array_equal(spike, e_spike), what, 'spike flags at {} '
              'expected at {}: outliers {}, n={} window={}', np.nonzero(spike)[0],
              np.nonzero(e_spike)[0], l_out, n, window)
    ctx.check(np.array_equal(step, e_step), what, 'step flags at {} '
              'expected at {}: outliers {}, n={}', np.nonzero(step)[0],
              np.nonzero(e_step)[0], l_out, n)
    ctx.state('known', freq, window, tuple((k, l) for k, _, l, _ in l_out))


def shape_ok(ctx, step, spike, n):
    for a in (step, spike):
        ctx.check(a.shape == (n,) and set(np.unique(a)) <= {0, 1} and
                  a.dtype == bool, 'flags', 'flags {} {} for {} samples',
                  a.shape, a.dtype, n)


def equiv(ctx, rng):
    n = int(rng.randint(3, 100))
    shape = (gen.L_SHAPE + ['spikes', 'steps'])[
        rng.randint(len(gen.L_SHAPE) + 2)]
    y = np.round(gen.values(shape, n, rng) * 16) / 16
    if rng.rand() < .5:
        for _ in range(rng.randint(1, 5)):
            p = rng.randint(n)
            y[p:p + rng.randint(1, 4)] += float(rng.randint(-60, 60))
    if rng.rand() < .2:
        y[rng.randint(n)] = np.nan
    freq, df = table(rng, y)
    step, spike = flags(df)
    shape_ok(ctx, step, spike, n)
    d0 = np.diff(y)
    d0 = d0[~np.isnan(d0)]
    if len(d0):
        lo, hi = tukey(d0)
        if not ((d0 < lo) | (d0 > hi)).any():
            ctx.check(not step.any() and not spike.any(), 'none',
                      'flags without outlying changes')
    # flagged samples differ from a neighbour, in an outlying way
    for i in np.nonzero(step | spike)[0]:
        near = np.diff(y)[max(0, i - 4):i + 4]
        ctx.check(len(near) and ((near < lo) | (near > hi)).any(),
                  'near_change', 'flag at {} far from outlying changes', i)
    l = []
    for c in (1024., -64., 0.25):
        l.append(('offset {}'.format(c), df.assign(y=df.y + c)))
    for c in (2., 1024., 1. / 64, 2. ** -40, 2. ** 40):
        l.append(('factor {}'.format(c), df.assign(y=df.y * c)))
    if freq is None:
        for c in (1, 500, -13):
            l.append(('shift {}'.format(c), df.assign(x=df.x + c)))
        l.append(('fractional', df.assign(x=df.x + .75)))
        l.append(('unit', df.assign(x=df.x * [.25, .1, 1 / 3., 1.5][
            rng.randint(4)])))
        l.append(('uneven', df.assign(x=np.cumsum(
            rng.uniform(.01, 2., n)))))
    else:
        for c in (1, 7, 3653):
            l.append(('shift {}'.format(c), df.assign(
                date=df.date + dt.timedelta(days=c))))
        l.append(('numeric', df.drop(columns='date').assign(
            x=np.arange(n))))
    l.append(('weights', df.assign(weight=2.)))
    d2 = df.copy()
    d2.index = np.arange(n) * 3 + 100
    l.append(('index', d2))
    for what, d in l:
        s2, k2 = flags(d)
        ctx.check(np.array_equal(step, s2) and np.array_equal(spike, k2),
                  'equivariant', 'flags differ for {}: step {} {} spike {} '
                  '{}', what, np.nonzero(step)[0], np.nonzero(s2)[0],
                  np.nonzero(spike)[0], np.nonzero(k2)[0])
    ctx.state('equiv', freq, shape, bool(step.any()), bool(spike.any()))


def forecast_case(ctx, rng, case):
    from anticipy import forecast
    n = int(rng.randint(20, 80))
    d = np.round(quiet(rng, n) * 64) / 64
    y = 64. + np.cumsum(d) + np.round(rng.normal(0, .2, n), 2)
    for _ in range(rng.randint(1, 4)):
        p = int(rng.randint(1, n - 3))
        y[p:p + rng.randint(1, 3)] += float(rng.choice([-1, 1])) * \
            float(rng.randint(30, 90))
    freq, df = table(rng, y, ['num', 'num', 'D', 'D', 'W', 'MS'][
        rng.randint(6)])
    dated = freq is not None
    if dated:
        df = df.drop(columns='x')
    if rng.rand() < .5:
        df['weight'] = np.round(rng.uniform(.2, 2, n), 2)
        if rng.rand() < .4:
            df.loc[rng.randint(n), 'weight'] = 0.
    if rng.rand() < .3:
        df.loc[int(rng.randint(2, n - 2)), 'y'] = np.nan
    n_src = 2 if rng.rand() < .2 else 1
    kcol = 'date' if dated else 'x'
    start = None
    if rng.rand() < .3:
        start = df[kcol].iloc[n // 5]
    kw = dict(l_model_trend=[models.get(['linear', 'constant',
                                         ['+', 'linear', 'step']][
                                             rng.randint(3)])],
              l_model_season=[], include_all_fits=True,
              extrapolate_years=.1)
    if rng.rand() < .3 and freq == 'D':
        kw.pop('l_model_season')
    if start is not None:
        kw['date_start_actuals'] = start

    def with_flags(d0):
        dn = forecast.normalize_df(d0)
        if start is not None:
            dn = dn.loc[dn[kcol] >= start]
        step, spike = flags(dn)
        drop = set(dn.loc[spike, kcol])
        e = d0.copy()
        if 'weight' not in e:
            e['weight'] = 1.
        e.loc[e[kcol].isin(drop), 'weight'] = 0.
        return e, drop

    if n_src == 2:
        y2 = y[::-1].copy()
        l_d = [df, df.assign(y=y2)]
        l_e = [with_flags(t) for t in l_d]
        df = pd.concat([t.assign(source=k) for t, k in zip(l_d, 'ab')],
                       ignore_index=True)
        e = pd.concat([t.assign(source=k) for (t, _), k in zip(l_e, 'ab')],
                      ignore_index=True)
        l_drop = [t for _, t in l_e]
        l_src = ['a', 'b']
    else:
        e, drop = with_flags(df)
        l_drop, l_src = [drop], ['src']
    h = obs.df_hash(df)
    if rng.rand() < .3:
        df_in = df.sample(frac=1., random_state=rng.randint(999))
    else:
        df_in = df
    r1 = obs.run(df_in, seed=case['seed'], find_outliers=True, **kw)
    ctx.check(obs.df_hash(df) == h, 'unchanged', 'input was changed')
    r2 = obs.run(e, seed=case['seed'], **kw)
    dd = obs.dict_diff(r1, r2, rtol=obs.NOISE, ignore=('weights', 'source_long',
                                       'params_str'))
    ctx.check(dd is None, 'same_forecast', 'with outlier detection: {}; '
              'ignored {}', dd, l_drop)
    for src, drop in zip(l_src, l_drop):
        a = obs.adata(r1, src)
        w = a.loc[a.date.isin(drop)]
        ctx.check((w.weight == 0).all() and len(w) == len(drop), 'ignored',
                  'ignored samples have weights {}', list(w.weight))
        rest = a.loc[~a.date.isin(drop)]
        s = df if n_src == 1 else df.loc[df.source == src]
        w0 = dict(zip(s[kcol], s.weight)) if 'weight' in s else {}
        ctx.check(all(w == w0.get(t, 1.) for t, w in
                      zip(rest.date, rest.weight)), 'others_kept',
                  'weights of other samples were changed')
        y0 = dict(zip(s[kcol], s.y))
        ctx.check(all(v == y0[t] or v != v and y0[t] != y0[t]
                      for t, v in zip(a.date, a.y)), 'values_kept',
                  'values were changed')
        ctx.hit('dropped', len(drop))
    ctx.state('run', freq, n_src, start is not None, 'weight' in df,
              [len(t) > 0 for t in l_drop])
