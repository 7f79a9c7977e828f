"""C18 - sampling frequency is detected, and gaps are filled on the grid.

Oracle: ground truth of generated grids, computed with the standard library.
"""
import datetime as dt

import numpy as np
import pandas as pd

from vf import gen, models, obs

PROPERTY = 'C18'
RULE = ('random grids of all frequencies, start dates 1950-2060, lengths 2-'
        '400, random gaps, order, repetitions, types of input and times of '
        'day; numeric x; non-trivial when a frequency or filled table was '
        'compared with the grid')
FLOORS = {'freq': 2000, 'freq_order': 1000, 'freq_gaps': 300,
          'fill_rows': 250, 'fill_mask': 250, 'fill_x': 250, 'fill_y': 100,
          'existing': 250, 'reported': 60, 'freq_tz': 300,
          'tz': 30}


def cases(tier, seed):
    n = dict(quick=400, thorough=12000)[tier]
    l = []
    # every start month / week day
    for freq in gen.L_FREQ:
        for m in range(1, 13):
            l.append(dict(kind='freq', freq=freq, month=m, seed=seed))
    l += [dict(kind='freq', freq='any', seed=seed * 3571 + i)
          for i in range(n)]
    l += [dict(kind='fill', seed=seed * 3571 + i) for i in range(n)]
    l += [dict(kind='run', seed=seed * 3571 + i) for i in range(n // 5)]
    l += [dict(kind='tz', seed=seed * 3571 + i) for i in range(n // 5)]
    return l


def start(freq, rng, month=None):
    st = gen.grid_start(freq, rng)
    y = int(rng.randint(1950, 2060))
    m = month or st.month
    if freq in ('M', 'Q', 'Y'):
        import calendar
        return dt.datetime(y, m, calendar.monthrange(y, m)[1])
    if freq in ('MS', 'QS', 'YS'):
        return dt.datetime(y, m, 1)
    st = dt.datetime(y, m, int(rng.randint(1, 29)))
    if freq == 'H':
        st += dt.timedelta(hours=int(rng.randint(24)),
                           minutes=int([0, 0, 30, 7][rng.randint(4)]))
    elif rng.rand() < .15:
        st += dt.timedelta(hours=int(rng.randint(24)))
    return st


# Time zones whose clocks do not change at midnight
L_TZ = ['UTC', 'Europe/London', 'America/New_York', 'Australia/Sydney',
        'Asia/Tokyo', 'Europe/Rome']


def gaps(freq, n, rng):
    """Keep mask that leaves the grid recognisable: its smallest step is
    present, and for months and quarters, in both long and short months"""
    keep = rng.rand(n) > rng.uniform(.1, .6)
    keep[0] = keep[-1] = True
    i = int(rng.randint(0, n - 1))
    keep[i:i + 2] = True
    return keep


def detect(a):
    from anticipy import model_utils
    return model_utils.detect_freq(a)


def run_case(case, ctx):
    rng = gen.rng_of('c18', case['kind'], case.get('freq'),
                     case.get('month'), case['seed'])
    if case['kind'] == 'freq':
        freq = case['freq']
        for _ in range(3):
            f = gen.L_FREQ[rng.randint(len(gen.L_FREQ))] if freq == 'any' \
                else freq
            freq_case(ctx, rng, f, case.get('month'))
    elif case['kind'] == 'fill':
        fill_case(ctx, rng)
    elif case['kind'] == 'tz':
        tz_case(ctx, rng, case)
    else:
        reported(ctx, rng, case)


def freq_case(ctx, rng, freq, month):
    st = start(freq, rng, month)
    n = int([2, 3, 5, 12, 30, 120, 400][rng.randint(7)])
    if freq in ('Y', 'YS', 'Q', 'QS'):
        n = min(n, 40)
    l = gen.dates(freq, st, n)
    want = gen.freq_label(freq, st)
    s = pd.Series(pd.to_datetime(l))
    h = obs.df_hash(s)
    forms = dict(series=s, index=pd.DatetimeIndex(l), list=list(s),
                 table=pd.DataFrame(dict(date=s, y=1.)),
                 indexed=pd.Series(s.values, index=np.arange(n) * 2 + 5))
    for k, v in forms.items():
        got = detect(v)
        ctx.check(got == want, 'freq', 'frequency of {} {}.. ({} samples, '
                  '{}) is {}, expected {}', freq, st, n, k, got, want)
    ctx.check(obs.df_hash(s) == h, 'unchanged', 'input was changed')
    tz = L_TZ[rng.randint(len(L_TZ))]
    st_t = st.time() == dt.time() and 1987 <= st.year and \
        l[-1].year < 2037
    if st_t or freq == 'H':
        sz = s.dt.tz_localize('UTC').dt.tz_convert(tz) if freq == 'H' \
            else s.dt.tz_localize(tz)
        got = detect(sz)
        ctx.check(got == want, 'freq_tz', 'frequency of {} {}.. {} ({} '
                  'samples) is {}, expected {}', freq, st, tz, n, got, want)
    p = rng.permutation(n)
    rep = np.concatenate([p, rng.randint(0, n, int(rng.randint(1, 6)))])
    for q in (p, p[::-1], rep, np.sort(rep)):
        got = detect(s.iloc[q].reset_index(drop=True))
        ctx.check(got == want, 'freq_order', 'frequency of {} {}.. ({} '
                  'samples) in another order is {}, expected {}', freq, st,
                  n, got, want)
    if n >= 5:
        keep = gaps(freq, n, rng)
        got = detect(s[keep])
        if freq in ('D', 'H', 'W', 'MS', 'QS', 'YS'):
            ok = True
        else:
            # ends of months: day 28-31 in all of them, so never the first
            ok = True
        ctx.check(got == want or not ok, 'freq_gaps', 'frequency of {} {}.. '
                  'with gaps is {}, expected {}: {}', freq, st, got, want,
                  list(s[keep])[:9])
    for v in (s[:1], s[:0], pd.concat([s[:1]] * 3)):
        ctx.check(detect(v) is None, 'single', 'frequency of a single sample '
                  'is {}', detect(v))
    ctx.check(detect(pd.DataFrame(dict(x=np.arange(n), y=1.))) is None,
              'numeric', 'frequency of numeric x')
    ctx.state('freq', want, n)


def fill_case(ctx, rng):
    from anticipy import model_utils
    freq = [None, 'D', 'D', 'W', 'H', 'MS', 'M', 'QS', 'Q', 'YS', 'Y'][
        rng.randint(11)]
    n = int([5, 8, 20, 60, 150][rng.randint(5)])
    if freq in ('Y', 'YS', 'Q', 'QS'):
        n = min(n, 40)
    y = np.round(rng.normal(100, 10, n), 3)
    if freq is None:
        x0 = int([0, 1, -8, 50][rng.randint(4)])
        grid = list(range(x0, x0 + n))
        if rng.rand() < .5:
            # float indexes, with steps that are not exact
            grid = list(np.arange(n) + x0 + [0., .5, .1, 1 / 3., -.7][
                rng.randint(5)])
            ctx.hit('fractional')
        a = pd.DataFrame(dict(x=grid, y=y))
        kcol = 'x'
    else:
        st = start(freq, rng)
        grid = [pd.Timestamp(t) for t in gen.dates(freq, st, n)]
        a = pd.DataFrame(dict(date=grid, y=y))
        a['x'] = [gen.x_of_date(t.to_pydatetime(), st) for t in grid]
        if rng.rand() < .2:
            a = a.drop(columns='x')
        kcol = 'date'
    if rng.rand() < .3:
        a['weight'] = np.round(rng.uniform(.1, 2, n), 2)
    with_gaps = rng.rand() < .8
    if with_gaps:
        keep = gaps(freq, n, rng)
        if freq is None or freq == 'D':
            keep[:2] = True
        if freq == 'D' and rng.rand() < .25:
            # gaps of the same length, that is not that of any other grid
            k = int([2, 3, 4, 8, 10, 15, 20][rng.randint(7)])
            keep = np.arange(n) % k == 0
            if keep.sum() < 2 or not keep[-1]:
                n = max(int(n - 1) // k, 1) * k + 1
                grid = [pd.Timestamp(t) for t in gen.dates(freq, st, n)]
                y = np.round(rng.normal(100, 10, n), 3)
                d = dict(date=grid, y=y)
                if 'x' in a:
                    d['x'] = [gen.x_of_date(t.to_pydatetime(), st)
                              for t in grid]
                if 'weight' in a:
                    d['weight'] = np.round(rng.uniform(.1, 2, n), 2)
                a = pd.DataFrame(d)
                keep = np.arange(n) % k == 0
            ctx.hit('regular_gaps')
    else:
        keep = np.full(n, True)
    df = a.loc[keep].reset_index(drop=True)
    if rng.rand() < .3:
        # existing null values
        df.loc[rng.randint(1, max(2, len(df) - 1)), 'y'] = np.nan
        nulls = True
    else:
        nulls = False
    n_miss = int((~keep).sum())
    if freq is None and n_miss:
        d = df.x.diff().dropna().round(6)
        if d.nunique() == 1:
            ctx.hit('regular_sparse')
            return
    h = obs.df_hash(df)
    for mask in (False, True):
        for iy in (False, True):
            r = model_utils.interpolate_df(df, include_mask=mask,
                                           interpolate_y=iy)
            ctx.check(obs.df_hash(df) == h, 'unchanged', 'input changed')
            ctx.check(len(r) == n and all(
                abs(v - g) < 1e-6 for v, g in zip(r[kcol], grid))
                if freq is None else list(r[kcol]) == grid, 'fill_rows', 'rows of {} after '
                      'filling gaps: {} rows, grid has {}: extra {} missing '
                      '{}', freq, len(r), n,
                      sorted(set(r[kcol]) - set(grid))[:3],
                      sorted(set(grid) - set(r[kcol]))[:3])
            ctx.check(set(r.columns) == set(df.columns) |
                      ({'is_gap_filled'} if mask else set()), 'columns',
                      'columns {} (mask {})', list(r.columns), mask)
            if mask:
                ctx.check([bool(v) for v in r.is_gap_filled] ==
                          [not k for k in keep], 'fill_mask', 'mask of '
                          'filled gaps of {}: {} filled, expected {}', freq,
                          int(r.is_gap_filled.sum()), n_miss)
            # existing samples
            e = r.loc[keep]
            old = df
            if 'x' in df:
                ctx.check(list(e.x) == list(old.x) and
                          r.x.dtype == df.x.dtype, 'existing',
                          'x of existing samples changed')
                lin = np.interp(np.arange(n), np.nonzero(keep)[0], df.x)
                if df.x.dtype.kind == 'i':
                    ok = np.all(np.abs(r.x - lin) <= 1) and \
                        np.all(np.abs(r.x - lin)[lin == np.round(lin)]
                               < 1e-9)
                else:
                    ok = np.allclose(r.x, lin)
                ctx.check(ok, 'fill_x', 'x of filled gaps is {}, linear {}',
                          list(r.x)[:12], list(lin)[:12])
            for c in ('y', 'weight'):
                if c not in df:
                    continue
                v, o = e[c].values, old[c].values
                some = ~np.isnan(o)
                ctx.check(np.array_equal(v[some], o[some]), 'existing',
                          '{} of existing samples changed', c)
                if not iy:
                    ctx.check(np.isnan(v[~some]).all() and
                              r[c].values[~keep].size == n_miss and
                              np.isnan(r[c].values[~keep]).all(), 'existing',
                              '{} of gaps is not null', c)
                else:
                    pos = np.nonzero(keep)[0][some]
                    lin = np.interp(np.arange(n), pos, o[some])
                    inner = (np.arange(n) >= pos[0]) & ~keep
                    ctx.check(obs.num_close(r[c].values[inner], lin[inner]),
                              'fill_y', '{} is not interpolated linearly', c)
    ctx.state('fill', freq, n, with_gaps, 'x' in df, nulls)
    # repeated samples
    d2 = pd.concat([df, df.iloc[[1]]]).sort_values(
        kcol, kind='stable').reset_index(drop=True)
    if n_miss:
        try:
            model_utils.interpolate_df(d2)
            ok = False
        except ValueError:
            ok = True
        ctx.check(ok, 'repeated', 'gaps and repeated samples accepted')
    else:
        r = model_utils.interpolate_df(d2)
        ctx.check(len(r) == len(d2), 'repeated', 'rows lost')


def reported(ctx, rng, case):
    """Frequency in the metadata, and the steps of the forecast"""
    s = gen.make_series(rng, 'any', gaps=rng.rand() < .5)
    df = s.df()
    if len(df) < 3:
        return  # too short to be fitted
    df = df.sample(frac=1., random_state=rng.randint(999))
    if rng.rand() < .3:
        df['weight'] = 1.
    r = obs.run(df, seed=case['seed'], l_model_season=[], l_model_trend=[
        models.get('constant')], l_model_naive=[], include_all_fits=True,
        extrapolate_years=1.)
    want = s.label
    got = list(r['metadata'].freq)
    ctx.check(got == [want], 'reported', 'reported frequency {}, expected '
              '{}', got, want)
    f = obs.fdata(r)
    grid = [pd.Timestamp(t) for t in s.grid] if s.freq else s.grid
    ctx.check(list(f.date)[:s.n] == list(grid), 'reported_grid',
              'forecast dates are not those of the grid')
    ctx.state('run', want)


def tz_case(ctx, rng, case):
    """The forecast of a series with a time zone is that of its local time"""
    f = ['D', 'D', 'W', 'W', 'MS', 'M', 'QS', 'Q', 'YS', 'Y'][rng.randint(10)]
    s = gen.make_series(rng, f, n=int(rng.randint(3, 60)),
                        gaps=rng.rand() < .3)
    d = s.df()
    if d.date.min().year < 1987 or d.date.max().year > 2034:
        return
    o = dict(extrapolate_years=float([.1, .5, 1.][rng.randint(3)]),
             include_all_fits=True)
    if rng.rand() < .6:
        o['trend'] = [['linear'], ['constant', ['+', 'linear', 'ramp']]][
            rng.randint(2)]
        o['season'] = [[], ['season_wday'], ['season_month']][rng.randint(3)]
    kw = models.kwargs(o)
    if rng.rand() < .3:
        # given as text: a day of the calendar
        kw['date_start_actuals'] = str(d.date.min().date() + pd.Timedelta(
            int(rng.randint((d.date.max() - d.date.min()).days // 2 + 1)),
            unit='D'))
    tz = L_TZ[rng.randint(len(L_TZ))]
    r = obs.run(d, seed=case['seed'], **kw)
    r2 = obs.run(d.assign(date=d.date.dt.tz_localize(tz)), seed=case['seed'],
                 **kw)
    a, b = r['data'], r2['data']
    ctx.check(list(r['metadata'].freq) == list(r2['metadata'].freq), 'tz',
              'frequency {} in local time, {} with time zone {}',
              list(r['metadata'].freq)[:1], list(r2['metadata'].freq)[:1], tz)
    ctx.check(len(a) == len(b) and
              (a.date.values == b.date.dt.tz_localize(None).values).all(),
              'tz', 'dates differ with time zone {}: {} rows until {}, {} '
              'until {}', tz, len(a), a.date.max(), len(b), b.date.max())
    ctx.check(obs.num_close(a.y, b.y, 1e-6, 1e-6 * obs.scale_of(
        a.y.dropna())), 'tz', 'values differ with time zone {}', tz)
    # What is reported on the fits is the same
    ma, mb = [m.reset_index(drop=True) for m in (r['metadata'],
                                                 r2['metadata'])]
    ctx.check(len(ma) == len(mb), 'tz', '{} fits, {} with time zone {}',
              len(ma), len(mb), tz)
    for c in ('source', 'model', 'status', 'is_fit', 'is_best_fit',
              'add_mult', 'actuals_x_range', 'weights', 'source_long'):
        if c in ma or c in mb:
            ctx.check(list(ma[c].astype(str)) == list(mb[c].astype(str)),
                      'tz', '{} {} in local time, {} with time zone {}', c,
                      list(ma[c])[:2], list(mb[c])[:2], tz)
    ctx.state('tz', f, tz, 'date_start_actuals' in kw)
