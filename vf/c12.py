"""C12 - prediction intervals are nested, centred and bounded by residuals.

Oracle: (a) range of sums of centred residuals recomputed from the output;
(b) with many simulations, the reported percentile lies within 6 standard
errors of the percentile of sums of the documented number of residuals,
simulated independently.
"""
import numpy as np
import pandas as pd

from vf import gen, models, obs, ref

PROPERTY = 'C12'
RULE = ('(a) random forecasts with all widening periods, percentiles and '
        'frequencies, zero and missing weights and null values with absurd '
        'values; (b) synthetic forecast tables with known residuals and many '
        'simulations; non-trivial when interval columns of forecast rows '
        'were compared with the residuals')
FLOORS = {'names': 100, 'nested': 3000, 'past_range': 3000,
          'future_range': 1000, 'quantile': 2000, 'perfect': 10,
          'rows_kept': 40, 'widened_rows': 500}

# (frequency of the series, widening): samples per widening period
PERIOD = {('D', 'Y'): 365, ('D', 'Q'): 91, ('D', 'M'): 30, ('D', 'W'): 7,
          ('D', 'D'): 1, ('W', 'Y'): 52, ('W', 'Q'): 13, ('W', 'M'): 4,
          ('W', 'W'): 1, ('W', 'D'): 1, ('M', 'Y'): 12, ('M', 'Q'): 3,
          ('M', 'M'): 1, ('M', 'W'): 1, ('M', 'D'): 1, ('Q', 'Y'): 4,
          ('Q', 'Q'): 1, ('Q', 'M'): 1, ('Q', 'W'): 1, ('Q', 'D'): 1,
          ('Y', 'Y'): 1, ('Y', 'Q'): 1, ('Y', 'M'): 1, ('Y', 'W'): 1,
          ('Y', 'D'): 1, ('H', 'D'): 24, ('H', 'W'): 168, ('H', 'M'): 720,
          ('H', 'Q'): 2184, ('H', 'Y'): 8760,
          # without dates, one sample counts as a day
          ('x', 'Y'): 365, ('x', 'Q'): 91, ('x', 'M'): 30, ('x', 'W'): 7,
          ('x', 'D'): 1}


def cases(tier, seed):
    n = dict(quick=150, thorough=3000)[tier]
    m = dict(quick=70, thorough=1200)[tier]
    return ([dict(kind='run', seed=seed * 4409 + i) for i in range(n)] +
            [dict(kind='sim', seed=seed * 4409 + i) for i in range(m)])


def q_names(q1, q2):
    def s(v):
        return 'q{}'.format(v)
    return [s(q1), s(q2), s(100 - q2), s(100 - q1)]


def period(freq, widening):
    return PERIOD[(freq[0] if freq else 'x', widening)]


def tol(y):
    return 1e-9 * obs.scale_of(y)


def check_table(f, used, n_period, names, ctx):
    """f: interval table of one source; used: {date: [values]} of samples"""
    q = [c for c in f.columns if str(c).startswith('q')]
    ctx.check(sorted(q) == sorted(names), 'names', 'interval columns {} '
              'expected {}', q, names)
    a, b = obs.fc_rows(f, True), obs.fc_rows(f)
    ctx.check(a[q].isnull().all().all(), 'actuals_empty',
              'actuals have intervals')
    ctx.check(b[q].notnull().all().all(), 'filled',
              'forecast rows without interval')
    last = max(used)
    b = b.sort_values('date', kind='stable')
    res = []
    for t, y in zip(b.date, b.y):
        for v in used.get(t, ()):
            res.append(v - y)
    res = np.array(res) - np.mean(res)
    lo, hi = res.min(), res.max()
    e = tol(b.y) + 1e-12 + 1e-9 * (hi - lo)
    n1, n2, n3, n4 = names
    ctx.check(((b[n1] <= b[n2] + e) & (b[n2] <= b[n3] + e) &
               (b[n3] <= b[n4] + e)).all(), 'nested',
              'interval columns {} are not nested', names)
    ctx.hit('nested', len(b))
    past = b.loc[b.date <= last]
    for c in names:
        d = past[c] - past.y
        ctx.check(((d >= lo - e) & (d <= hi + e)).all(), 'past_range',
                  'past interval {}: deviation {}..{} from the forecast, '
                  'centred residuals are {}..{}', c, d.min(), d.max(), lo, hi)
        ctx.hit('past_range', len(past))
    fut = b.loc[b.date > last]
    k = 2 + np.arange(len(fut)) // n_period
    for c in names:
        d = (fut[c] - fut.y).values
        bad = (d < k * lo - e * k) | (d > k * hi + e * k)
        ctx.check(not bad.any(), 'future_range', 'future interval {}: '
                  'deviation {} of sample {} is not a percentile of sums of '
                  '{} centred residuals in {}..{}', c,
                  d[np.argmax(bad)] if len(d) else 0,
                  int(np.argmax(bad)) if len(d) else 0,
                  k[np.argmax(bad)] if len(d) else 0, lo, hi)
        ctx.hit('future_range', len(fut))
    ctx.hit('widened_rows', int((k > 2).sum()))
    ctx.hit('future_rows', len(fut))
    return res, past, fut


def run_kind(case, ctx):
    rng = gen.rng_of('c12', case['seed'])
    freq = [None, 'D', 'D', 'W', 'MS', 'M', 'QS', 'Y', 'H'][rng.randint(9)]
    s = gen.make_series(rng, freq, gaps=rng.rand() < .3)
    d = s.df()
    key = 'date' if freq else 'x'
    d['weight'] = 1.
    if rng.rand() < .5:
        # ignored samples with absurd values, next to weights as usual
        i = rng.choice(len(d), max(1, len(d) // 5), replace=False)
        d.loc[d.index[i], 'weight'] = [0., np.nan, 0.][rng.randint(3)]
        d.loc[d.index[i], 'y'] += 1e5 * rng.choice([-1, 1], len(i))
        if rng.rand() < .5:
            d.loc[d.index[-1], 'weight'] = 0.
    if rng.rand() < .3:
        d = ref.add_nulls(rng, d)
    dup = False
    if rng.rand() < .2 and s.keep.all():
        d = ref.repeat_samples(rng, d)
        dup = True
    start = None
    if rng.rand() < .2:
        start = s.grid[2]
    w = [k[1] for k in PERIOD if k[0] == (freq[0] if freq else 'x')]
    widening = w[rng.randint(len(w))]
    q1, q2 = [(5, 20), (10, 30), (1, 49), (2.5, 25), (20, 40)][rng.randint(5)]
    years = float([0, .1, .5, 1., 2.][rng.randint(5)])
    if freq == 'H':
        years /= 20
    elif freq and freq[0] in 'MQY':
        years *= 3
    kw = dict(l_model_trend=[models.get(['constant', 'linear', ['+', 'linear',
                                                               'ramp']][
        rng.randint(3)])], l_model_season=[], l_model_naive=[],
        extrapolate_years=years, pi_q1=q1, pi_q2=q2)
    if widening != 'Y' or rng.rand() < .5:
        kw['pi_widening_freq'] = widening
    n_period = period(freq, widening)
    if freq in (None, 'D') and rng.rand() < .2:
        n_period = kw['n_cum'] = int(rng.randint(1, 40))
    if start is not None:
        kw['date_start_actuals'] = start
    if dup:
        kw['l_model_naive'] = []
    r = obs.run(d, seed=case['seed'], **kw)
    e = d if start is None else d.loc[d[key] >= start]
    e = e.loc[(e.weight > 0) & e.y.notnull()]
    if not r['metadata'].is_best_fit.any():
        return
    used = {}
    for t, y in zip(e[key], e.y):
        used.setdefault(t, []).append(y)
    check_table(r['forecast'], used, n_period, q_names(q1, q2), ctx)
    ctx.state(freq, widening, dup, years > 0, kw.get('n_cum') is not None)
    # perfect fit: no width
    if rng.rand() < .25 and s.keep.all():
        df = s.df().assign(y=np.full(s.n, 7.25))
        r = obs.run(df, seed=2, l_model_trend=[models.get('constant')],
                    l_model_season=[], extrapolate_years=years, pi_q1=q1,
                    pi_q2=q2)
        b = obs.fc_rows(r['forecast'])
        for c in q_names(q1, q2):
            ctx.check(obs.num_close(b[c], b.y, 1e-6, 1e-6), 'perfect',
                      'interval of a perfect fit has width {}',
                      (b[c] - b.y).abs().max())


def sim_kind(case, ctx):
    """Synthetic forecast tables, many simulations"""
    from anticipy import forecast
    rng = gen.rng_of('c12s', case['seed'])
    freq = [None, 'D', 'W', 'MS', 'M', 'Q', 'YS', 'H'][rng.randint(8)]
    w = [k[1] for k in PERIOD if k[0] == (freq[0] if freq else 'x')]
    l_small = [v for v in w if 1 < period(freq, v) < 60] or w
    widening = l_small[rng.randint(len(l_small))]
    n_period = period(freq, widening)
    n, n_fut = int(rng.randint(12, 50)), int(rng.randint(1, 90))
    n_fut = min(n_fut, 4 * n_period)
    n_sims = 6000
    # Long series, with different residuals in earlier and later samples
    long = case['seed'] % 5 == 0
    if long:
        n = int(rng.randint(300, 1600))
        n_fut = min(n_fut, 30)
        n_sims = 1200
        if freq and freq[0] in 'YQM':
            n = int(rng.randint(60, 120))
    start = gen.grid_start(freq, rng) if freq else 0
    g = gen.dates(freq, start, n + n_fut) if freq else list(
        range(n + n_fut))
    level = rng.normal(100, 30)
    fc = level + .3 * np.arange(n + n_fut)
    shape = rng.randint(3)
    res = [rng.normal(0, 1, n), rng.exponential(1, n) - .3,
           np.where(rng.rand(n) < .2, 8., rng.normal(0, .2, n))][shape]
    res = np.round(res * 10. ** rng.randint(-2, 3), 6)
    if long:
        cut = int(n * rng.uniform(.2, .8))
        res[:cut] *= [.1, 10.][rng.randint(2)]
    y = fc[:n] + res + rng.normal(0, 20)
    l = []
    weight = np.ones(n)
    yy = y.copy()
    use_w = rng.rand() < .7
    if use_w and rng.rand() < .7:
        i = 1 + rng.choice(n - 2, max(1, n // 6), replace=False)
        weight[i] = [0., np.nan][rng.randint(2)]
        yy[i] += 1e6
    if rng.rand() < .4:
        yy[1 + rng.randint(n - 2)] = np.nan
    for k in range(n):
        l.append(dict(date=g[k], y=yy[k], weight=weight[k], model='actuals',
                      is_actuals=True, is_best_fit=False))
    for k in range(n + n_fut):
        l.append(dict(date=g[k], y=fc[k], weight=1., model='m',
                      is_actuals=False, is_best_fit=True))
    other = rng.rand() < .5
    if other:
        # output of a model that was not selected
        for k in range(n + n_fut):
            l.append(dict(date=g[k], y=-1e5, weight=1., model='other',
                          is_actuals=False, is_best_fit=False))
    t = pd.DataFrame(l)
    t['source'] = 'src'
    if freq:
        t['date'] = pd.to_datetime(t.date)
    if not use_w:
        t = t.drop(columns='weight')
    if not other and rng.rand() < .5:
        t = t.drop(columns='is_best_fit')
    q1, q2 = [(5, 20), (10, 30), (2, 45), (2.5, 25)][rng.randint(4)]
    np.random.seed(case['seed'] % 10 ** 6)
    multi = rng.rand() < .3
    tt = t
    if multi:
        t2 = t.copy()
        t2['source'] = 'a2'
        t2['y'] = t2.y * 1e4
        tt = pd.concat([t, t2], ignore_index=True)
    f = forecast.get_pi(tt, n_sims=n_sims, pi_q1=q1, pi_q2=q2,
                        widening_freq=widening)
    f = f.loc[f.source == 'src']
    used = {}
    ok = (weight > 0) & ~np.isnan(yy)
    for k in range(n):
        if ok[k]:
            used[pd.Timestamp(g[k]) if freq else g[k]] = [yy[k]]
    names = q_names(q1, q2)
    r, past, fut = check_table(f, used, n_period, names, ctx)
    b = obs.fc_rows(f)
    ctx.check(len(b) == n + n_fut and obs.num_close(
        b.sort_values('date').y, fc) and set(b.model) == {'m'}, 'rows_kept',
        'forecast rows changed')
    a = obs.fc_rows(f, True)
    ctx.check(len(a) == int((~np.isnan(yy)).sum()), 'rows_kept',
              'actuals rows: {}', len(a))
    # percentiles of sums of k residuals
    d_sum = {}
    big = 150000
    own = np.random.RandomState(case['seed'] % 10 ** 6)

    def check_q(rows, k):
        if k not in d_sum:
            d_sum[k] = np.sort(own.choice(r, (k, big)).sum(axis=0))
        sm = d_sum[k]
        eps = 1e-9 * obs.scale_of(fc, r) + 1e-6 * (r.max() - r.min())
        for c, q in zip(names, (q1, q2, 100 - q2, 100 - q1)):
            p = q / 100.
            dl = 6 * np.sqrt(p * (1 - p) / n_sims) + .004
            lo = sm[max(0, int((p - dl) * big) - 1)] if p > dl else sm[0]
            hi = sm[min(big - 1, int((p + dl) * big) + 1)] \
                if p + dl < 1 else sm[-1]
            if p <= dl:
                lo = k * r.min()
            if p + dl >= 1:
                hi = k * r.max()
            d = (rows[c] - rows.y).values
            ctx.check(((d >= lo - eps) & (d <= hi + eps)).all(), 'quantile',
                      'percentile {} of sums of {} residuals: deviation '
                      '{}..{}, expected within {}..{} (freq {} widening {})',
                      q, k, d.min(), d.max(), lo, hi, freq, widening)
            ctx.hit('quantile', len(d) - 1)

    check_q(past, 1)
    k_fut = 2 + np.arange(len(fut)) // n_period
    for k in np.unique(k_fut):
        check_q(fut.loc[k_fut == k], int(k))
    ctx.state('sim', freq, widening, len(np.unique(k_fut)), multi, other,
              long)


def run_case(case, ctx):
    if case['kind'] == 'run':
        run_kind(case, ctx)
    else:
        sim_kind(case, ctx)
