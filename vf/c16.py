"""C16 - naive models repeat the last known sample and never look ahead.

Oracle: a sample-by-sample reference of the naive models over the documented
output grid; causality monitor: outputs of two histories that agree before a
date agree up to it.
"""
import numpy as np
import pandas as pd

from vf import gen, models, obs, ref

PROPERTY = 'C16'
RULE = ('naive and seasonal naive model over random series: all frequencies, '
        'numeric x, weights with zeros (also first and last samples), null '
        'values, gaps, repeated samples, first dates, horizons and outlier '
        'detection; pairs of series that differ from a random date on; '
        'direct evaluation for arbitrary requests; non-trivial when output '
        'values were compared with the reference')
FLOORS = {'values': 8000, 'rows': 300, 'causal': 50, 'future': 1500,
          'direct': 300, 'gap_values': 300, 'zero_weight_values': 300}


def cases(tier, seed):
    n = dict(quick=300, thorough=7000)[tier]
    return ([dict(kind='run', seed=seed * 6151 + i) for i in range(n)] +
            [dict(kind='causal', seed=seed * 6151 + i) for i in range(n // 3)]
            + [dict(kind='direct', seed=seed * 6151 + i)
               for i in range(n // 3)])


def make(rng, dups=True):
    s = gen.make_series(rng, 'any', gaps=rng.rand() < .4,
                        big=rng.rand() < .05)
    outage = rng.rand() < .12
    if outage:  # unknown values for many weeks
        s = gen.make_series(rng, 'D', n=int(rng.randint(60, 200)))
    df = s.df()
    dated = s.freq is not None
    if rng.rand() < .6:
        df = ref.add_weights(rng, df, p_zero=.8)
        if rng.rand() < .3:
            k = int(rng.randint(1, 4))
            df.loc[df.index[:k], 'weight'] = 0.
        if rng.rand() < .3:
            k = int(rng.randint(1, 4))
            df.loc[df.index[-k:], 'weight'] = 0.
        if rng.rand() < .2:
            df.loc[df.index[len(df) // 2], 'weight'] = np.nan
    if rng.rand() < .4:
        df = ref.add_nulls(rng, df)
        if rng.rand() < .2:
            df.loc[df.index[-1], 'y'] = np.nan
    if outage:
        k = int(rng.randint(36, len(df) - 10))
        i = int(rng.randint(3, len(df) - k - 3))
        m = (np.arange(len(df)) >= i) & (np.arange(len(df)) < i + k)
        if rng.rand() < .6:  # of some days of the week
            m &= df.date.dt.weekday.isin(rng.randint(0, 7, 3)).values
        u = rng.rand()
        if u < .3:
            df = df.loc[~m].reset_index(drop=True)
            s.keep = ~m
        elif u < .6 and 'weight' in df:
            df.loc[m, 'weight'] = 0.
        else:
            df.loc[m, 'y'] = np.nan
    dup = False
    if dups and rng.rand() < .15 and s.keep.all():
        df = ref.repeat_samples(rng, df)
        dup = True
        if rng.rand() < .5:
            # some of the values of a sample are ignored or missing
            i = rng.rand(len(df)) < .2
            if 'weight' in df and rng.rand() < .5:
                df.loc[i, 'weight'] = 0.
            else:
                df.loc[i, 'y'] = np.nan
    if rng.rand() < .3:
        df = df.sample(frac=1., random_state=rng.randint(999))
    start = None
    if rng.rand() < .25:
        start = s.grid[max(1, s.n // 4)]
        if dated:
            start = str(start)
    return s, df, dated, dup, start


def known_values(u):
    """Known samples: {date: set of values}, in time order"""
    d = {}
    for k, y in zip(u.df['date' if u.dated else 'x'], u.y):
        d.setdefault(k, set()).add(float(y))
    return d


def expected(model, d_known, t):
    """Possible values at t, None if there is none"""
    wday = model == 'snaive_wday'
    l = [k for k in d_known if k < t and
         (not wday or k.weekday() == t.weekday())]
    if l:
        return d_known[max(l)]
    if wday or not d_known:
        return None
    return d_known[min(d_known)]


def grid_of(s, u, years):
    """Documented output grid: from the first sample with weight"""
    lo = min(k for k, w in zip(u.in_range[u.kcol], u.in_range.weight)
             if w > 0)
    end = u.last
    if not u.dated:
        n = int(end - lo) + 1 + gen.n_future(None, years)
        return [lo + i for i in range(n)]
    l, k = [], 0
    i0 = s.grid.index(lo.to_pydatetime())
    i1 = s.grid.index(end.to_pydatetime())
    n = i1 - i0 + 1 + gen.n_future(s.freq, years)
    return [pd.Timestamp(gen.grid(s.freq, s.grid[0], i0 + i))
            for i in range(n)]


def used(df, dated, start):
    d = df
    if 'weight' in d:
        d = d.assign(weight=d.weight.fillna(0.))
    else:
        d = d.assign(weight=1.)
    u = ref.Used(d, dated, start)
    u.kcol = 'date' if dated else 'x'
    return u


def naive(rng, dated):
    return ['naive', 'snaive_wday'][rng.randint(2)] if dated else 'naive'


def run_case(case, ctx):
    rng = gen.rng_of('c16', case['kind'], case['seed'])
    if case['kind'] == 'direct':
        return direct(ctx, rng)
    s, df, dated, dup, start = make(rng, case['kind'] == 'run')
    name = naive(rng, dated)
    years = float([0, .1, .3, 1.][rng.randint(4)])
    u = used(df, dated, start)
    if u.n < 2 or u.n and (u.in_range.weight > 0).sum() < 2:
        ctx.hit('too_short')
        return
    kw = dict(l_model_trend=[], l_model_season=[],
              l_model_naive=[models.get(name)], include_all_fits=True,
              extrapolate_years=years)
    if start is not None:
        kw['date_start_actuals'] = start
    outl = not dup and rng.rand() < .1
    if outl:
        kw['find_outliers'] = True
    r = obs.run(df, seed=case['seed'], **kw)
    md = r['metadata']
    ctx.check(list(md.model) == [name] and bool(md.is_fit.all()), 'fitted',
              '{} not fitted: {}', name, list(md.status))
    f = obs.fdata(r)
    out = dict(zip(f.date, f.y))
    ctx.check(len(out) == len(f), 'rows', 'repeated output dates')
    ctx.state(name, s.freq, dup, start is not None, 'weight' in df, outl,
              case['kind'])
    if case['kind'] == 'causal':
        return causal(ctx, rng, case, s, df, dated, name, kw, u, f)
    if outl:
        from anticipy import forecast, forecast_models
        # values that were ignored, as reported by outlier detection
        d = forecast.normalize_df(df)
        if start is not None:
            d = d.loc[d[u.kcol] >= start]
        step, spike = forecast_models.get_model_outliers(d)
        drop = set(d.loc[spike, u.kcol])
        d2 = df.copy()
        if 'weight' not in d2:
            d2['weight'] = 1.
        k = pd.to_datetime(d2.date) if dated else d2.x
        d2.loc[k.isin(drop), 'weight'] = 0.
        u = used(d2, dated, start)
        if u.n < 2:
            return
    d_known = known_values(u)
    grid = grid_of(s, u, years)
    want = {t: expected(name, d_known, t) for t in grid}
    rows = [t for t in grid if want[t] is not None]
    ctx.check([t for t in f.date] == rows, 'rows', '{} rows of {}, expected '
              '{}: {} {}', len(f), name, len(rows),
              sorted(set(f.date) - set(rows))[:3],
              sorted(set(rows) - set(f.date))[:3])
    zero = set(u.in_range.loc[~(u.in_range.weight > 0), u.kcol])
    have = set(u.in_range[u.kcol])
    for t in rows:
        ctx.check(any(abs(out[t] - v) <= 1e-9 * max(1, abs(v))
                      for v in want[t]), 'values', '{}: value at {} is {}, '
                  'last known {}', name, t, out[t], want[t])
        if t > u.last:
            ctx.hit('future')
        elif t in zero:
            ctx.hit('zero_weight_values')
        elif t not in have:
            ctx.hit('gap_values')
    # cost: residuals of known samples, with the same reference
    if not dup:
        w = dict(zip(u.key, u.wk))
        res = [(y - min(want[k])) * w[k0] for k0, k, y in
               zip(u.key, u.df[u.kcol], u.y) if want[k] is not None]
    else:
        # each sample against any of the allowed values, never its own date
        cost = float(md.cost.iloc[0])
        if all(v is None for v in (want[k] for k in u.df[u.kcol])):
            return
        lo = hi = 0.
        for k, y, wk in zip(u.df[u.kcol], u.y, u.wk):
            if want[k] is None:
                continue
            e = [abs(y - v) * wk for v in want[k]]
            lo += .5 * min(e) ** 2
            hi += .5 * max(e) ** 2
        ctx.check(lo * (1 - 1e-9) - 1e-9 <= cost <= hi * (1 + 1e-9) + 1e-9,
                  'cost_repeated', 'cost {} of {} is not in {}..{}', cost,
                  name, lo, hi)
        return
    if res:
        want_cost = .5 * float(np.sum(np.square(res)))
        ctx.check(abs(float(md.cost.iloc[0]) - want_cost) <=
                  1e-9 * want_cost + 1e-9, 'cost', 'cost {} of {}, residuals '
                  'give {}', md.cost.iloc[0], name, want_cost)


def causal(ctx, rng, case, s, df, dated, name, kw, u, f):
    """Change, null or ignore samples from a date on"""
    kw = dict(kw)
    kw.pop('find_outliers', None)
    kcol = u.kcol
    r = obs.run(df, seed=case['seed'], **kw)
    f = obs.fdata(r)
    keys = sorted(set(u.df[kcol]))
    t0 = keys[int(rng.randint(1, len(keys)))]
    d2 = df.copy()
    k = pd.to_datetime(d2.date) if dated else d2.x
    after = (k >= t0).values
    u0 = rng.rand()
    if u0 < .5:
        d2.loc[after, 'y'] = d2.loc[after, 'y'] * 3 + 1000.
    elif u0 < .75:
        pick = after & (rng.rand(len(d2)) < .7)
        if 'weight' not in d2:
            d2['weight'] = 1.
        d2.loc[pick, 'weight'] = 0.
    else:
        pick = after & (rng.rand(len(d2)) < .7)
        d2.loc[pick, 'y'] = np.nan
    u2 = used(d2, dated, kw.get('date_start_actuals'))
    if u2.n < 2:
        return
    r2 = obs.run(d2, seed=case['seed'], **kw)
    f2 = obs.fdata(r2)
    first = min(keys)
    a = {t: y for t, y in zip(f.date, f.y) if first < t <= t0}
    b = {t: y for t, y in zip(f2.date, f2.y) if first < t <= t0}
    ctx.check(a == b, 'causal', '{}: values before {} depend on later ones: '
              '{}', name, t0, [(t, a.get(t), b.get(t)) for t in sorted(
                  set(a) | set(b)) if a.get(t) != b.get(t)][:4])


def direct(ctx, rng):
    """Evaluate for arbitrary requests"""
    s, df, dated, dup, start = make(rng, False)
    name = naive(rng, dated)
    m = models.get(name)
    from anticipy import forecast, model_utils
    df = df.drop(columns=['weight'], errors='ignore')
    d = forecast.normalize_df(df)
    grid = [pd.Timestamp(t) for t in s.grid] if dated else list(s.grid)
    kcol = 'date' if dated else 'x'
    # all steps of the grid, unknown values null
    y = d.set_index(kcol).y.reindex(grid)
    x0 = dict(zip(d[kcol], d.x))
    if dated:
        x = [gen.x_of_date(t.to_pydatetime(), grid[0].to_pydatetime())
             for t in grid]
        a = pd.DataFrame(dict(date=grid, x=x, y=y.values))
    else:
        a = pd.DataFrame(dict(x=grid, y=y.values))
    d_known = {t: {float(v)} for t, v in zip(grid, y) if v == v}
    if not d_known:
        return
    if dated:
        ext = [pd.Timestamp(gen.grid(s.freq, s.grid[0], i))
               for i in range(s.n + 10)]
    else:
        ext = list(range(grid[0], grid[-1] + 10))
    for kind in ('grid', 'part', 'future', 'repeat'):
        if kind == 'grid':
            req = list(ext)
        elif kind == 'part':
            req = [ext[i] for i in sorted(
                rng.choice(len(ext), 5, replace=False))]
        elif kind == 'future':
            req = ext[s.n:]
        else:
            req = [ext[i] for i in sorted(rng.randint(0, len(ext), 8))]
        if dated:
            date = pd.DatetimeIndex(req)
            x = np.array([gen.x_of_date(t.to_pydatetime(),
                                        grid[0].to_pydatetime())
                          for t in req])
        else:
            date, x = None, np.array(req)
        if rng.rand() < .3:  # any order of actuals
            a = a.sample(frac=1, random_state=int(rng.randint(1000)))
        h = obs.df_hash(a)
        got = np.asarray(m(x, date, None, df_actuals=a), float)
        ctx.check(obs.df_hash(a) == h, 'unchanged', 'actuals were changed')
        ctx.check(got.shape == (len(req),), 'direct', '{}: {} values for {} '
                  'requests ({})', name, got.shape, len(req), kind)
        for t, g in zip(req, got):
            w = expected(name, d_known, t)
            ok = np.isnan(g) if w is None else g in w
            ctx.check(ok, 'direct', '{}: value at {} is {}, expected {} ({}) '
                      'requests {}', name, t, g, w, kind, req)
    try:
        m(x, date, None)
        ok = False
    except ValueError:
        ok = True
    ctx.check(ok, 'no_actuals', '{} accepted a call without actuals', name)
