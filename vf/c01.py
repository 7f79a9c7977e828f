"""C01 - equivalent presentations of the input; conservation by normalisation.

Oracles: (a) an independent reference of the normalised table, (b) equality
of full outputs across presentations, from the same random state.
"""
import numpy as np
import pandas as pd

from vf import gen, obs

PROPERTY = 'C01'
RULE = ('random series (all frequencies or numeric, 1-3 sources, optional '
        'weights, nulls, gaps) presented in a base form and in a random '
        'composition of presentation changes; non-trivial when both runs '
        'returned tables that were compared, or the normalised table was '
        'compared to the reference')
FLOORS = {'norm_rows': 100, 'norm_x': 20, 'same_forecast': 20, 'far': 10,
          'dtypes': 12, 'normalised_twice': 60, 'normalised_forecast': 8}


def cases(tier, seed):
    n = dict(quick=150, thorough=1800)[tier]
    l = []
    for freq in [None] + gen.L_FREQ:
        for k in range(2):
            l.append(dict(kind='fcast', freq=freq, seed=k))
    for kind in ('tz', 'hours', 'badindex', 'shuffled_sources', 'clash'):
        for k in range(3):
            l.append(dict(kind=kind, freq='D', seed=k))
    for kind, m in (('dtype', 12), ('far', 24)):
        for k in range(m * (1 if tier == 'quick' else 8)):
            l.append(dict(kind=kind, freq='any', seed=seed * 100003 + k))
    for i in range(n):
        l.append(dict(kind='fcast' if i % 2 else 'norm', freq='any',
                      seed=seed * 100003 + i))
    return l


def build(rng, freq):
    """List of (source, Series, weights or None), base dataframe"""
    n_src = int([1, 1, 1, 2, 3][rng.randint(5)])
    with_w = rng.rand() < .4
    if freq == 'any':
        freq = [None, 'D', 'D', 'W', 'MS', 'M', 'Q', 'YS'][rng.randint(8)]
    l_df, l_s = [], []
    names = [['b', 'a', 'c c'], ['b', 'a', 'c c'], [' a', 'a', 'a '],
             ['A', 'a', 'Ab'], ['', 'x:y', 'nan'], [10, 9, 2],
             ['10', '9', '2'], ['a.b', 'a', 'axb']][
                 rng.randint(8)]
    for i in range(n_src):
        s = gen.make_series(rng, freq, gaps=rng.rand() < .3)
        d = s.df()
        repeat = s.keep.all() and rng.rand() < .25
        if with_w:
            d['weight'] = np.round(rng.uniform(.2, 2, len(d)), 3)
            if rng.rand() < .5:
                d.loc[rng.rand(len(d)) < .1, 'weight'] = 0.
        if rng.rand() < .3 and len(d) > 8:
            d.loc[4 + rng.randint(len(d) - 6), 'y'] = np.nan
        if repeat:
            # identical samples: their order does not matter
            k = rng.choice(len(d), max(1, len(d) // 8), replace=False)
            d = pd.concat([d, d.iloc[np.repeat(
                k, rng.randint(1, 3, len(k)))]], ignore_index=True)
        if n_src > 1 or rng.rand() < .2:
            d['source'] = names[i]
        l_df.append(d)
        l_s.append(s)
    if any('source' not in d.columns for d in l_df) and n_src > 1:
        raise AssertionError
    return freq, l_s, pd.concat(l_df, ignore_index=True)


def reference(df, dated):
    """Independent reference of the normalised table, as a list of tuples"""
    out = []
    l_src = sorted(df['source'].unique()) if 'source' in df else [None]
    for src in l_src:
        rows = [r for r in df.to_dict('records')
                if src is None or r['source'] == src]
        if dated:
            first = min(r['date'] for r in rows)
        for r in rows:
            x = gen.x_of_date(r['date'].to_pydatetime(),
                              first.to_pydatetime()) if dated else r['x']
            out.append((src if src is not None else '', x,
                        r['date'] if dated else None, float(r['y']),
                        float(r['weight']) if 'weight' in df else None))
    return sorted(out, key=lambda t: (t[0], t[1], t[2] if dated else 0))


def check_norm(ctx, df, norm, dated):
    ref = reference(df, dated)
    ctx.check(len(norm) == len(ref), 'norm_rows',
              'normalised table has {} rows instead of {}', len(norm),
              len(ref))
    ctx.hit('norm_rows', len(ref))
    xs = [float(v) for v in norm['x']]
    ctx.check(xs == [float(t[1]) for t in ref], 'norm_x',
              lambda: 'x axis is {} instead of {}'.format(
                  xs[:20], [t[1] for t in ref][:20]))
    ctx.check(obs.num_close(norm['y'], [t[3] for t in ref], 0, 0), 'norm_y',
              'values moved or changed')
    if dated:
        ctx.check([pd.Timestamp(v) for v in norm['date']]
                  == [pd.Timestamp(t[2]) for t in ref],
                  'norm_date', 'dates moved or changed')
    if 'weight' in df:
        ctx.check(obs.num_close(norm['weight'], [t[4] for t in ref], 0, 0),
                  'norm_weight', 'weights moved or changed')
    if 'source' in df:
        ctx.check(list(norm['source']) == [t[0] for t in ref], 'norm_source',
                  'sources moved or changed')


def present(rng, df, dated, ctx):
    """Random composition of presentation changes -> df, kwargs"""
    df = df.copy()
    kw = {}
    multi = 'source' in df.columns
    done = []
    if rng.rand() < .5:
        df = df.sample(frac=1, random_state=int(rng.randint(1000)))
        done.append('shuffled')
    if rng.rand() < .4:
        df['unused'] = 'text'
        df['other'] = np.nan
        done.append('extra')
    r = rng.rand()
    if dated and r < .3:
        df = df.set_index('date')
        if rng.rand() < .5:
            df.index.name = [None, 'ds', 'y_date'][rng.randint(3)]
        done.append('index')
    elif dated and r < .55:
        if rng.rand() < .7:
            df['date'] = df['date'].astype(str)
            done.append('text')
        elif (df['date'] == df['date'].dt.normalize()).all():
            form = ['%Y%m%d', '%Y-%m-%dT%H:%M:%S', '%d %B %Y', None][
                rng.randint(4)]
            df['date'] = df['date'].dt.strftime(form) if form else \
                pd.Series(df['date'].dt.date, dtype=object)
            done.append('date' if form is None else 'format ' + form)
    elif dated and r < .7:
        df['date'] = [d.to_pydatetime() for d in df['date']]
        df['date'] = df['date'].astype(object)
        done.append('pydatetime')
    elif not dated and r < .4:
        df = df.set_index('x')
        done.append('index')
    elif r < .9:
        df.index = [11, 12, 14][rng.randint(3)] * np.arange(len(df)) - 3
        done.append('junkindex')
    if rng.rand() < .15:
        # permuted names, of columns that exist and ones that don't
        l = ['y', 'weight', 'x', 'date', 'source']
        perm = [l[i] for i in rng.permutation(5)]
        df = df.drop(columns=['unused', 'other'], errors='ignore').rename(
            columns=dict(zip(l, perm)))
        kw = {'col_name_' + a: b for a, b in zip(l, perm)}
        done.append('permuted')
    elif rng.rand() < .5:
        # rename columns
        ren = {}
        for c in ('y', 'weight', 'x', 'date', 'source'):
            if c in df.columns and rng.rand() < .6:
                ren[c] = 'my ' + c
                kw['col_name_' + c] = ren[c]
        df = df.rename(columns=ren)
        done.append('renamed')
        if ren and rng.rand() < .3:
            # unused column with the default name of a renamed one
            c = sorted(ren)[0]
            df[c] = 'junk'
            done.append('clash')
    elif not multi and rng.rand() < .6 and 'weight' not in df.columns \
            and df.index.name != 'date' and 'index' in done:
        df = df['y'].rename(['y', None, 'zz'][rng.randint(3)])
        done.append('series')
    if isinstance(df, pd.DataFrame) and rng.rand() < .3:
        df = df[list(df.columns[::-1])]
        done.append('colorder')
    cy = kw.get('col_name_y', 'y')
    cs = kw.get('col_name_source', 'source')
    if multi and rng.rand() < .1:
        df[cs] = df[cs].astype('category')
        done.append('category')
    if isinstance(df, pd.DataFrame) and rng.rand() < .2 and \
            not df[cy].isnull().any():
        df[cy] = df[cy].astype(object)
        done.append('objecty')
    for d in done:
        ctx.state('presentation', d)
    return df, kw, done


def case_dtype(case, ctx, rng):
    """Whole numbers, stored with any numeric type"""
    s = gen.make_series(rng, [None, 'D', 'W', 'MS'][rng.randint(4)],
                        n=int(rng.randint(12, 60)))
    df = s.df()
    y = df.y - df.y.min()
    df['y'] = np.round(y / max(y.max(), 1e-9) * 120) + 3
    weighted = rng.rand() < .5
    if weighted:
        df['weight'] = rng.randint(0, 3, len(df)) * 1.
        df.loc[df.index[:6], 'weight'] = 1.
    if 'x' in df:
        df['x'] = np.arange(len(df)) + int([0, 7, -60, 80, 1000][
            rng.randint(5)])
    opts = dict(extrapolate_years=[0, .2, 1.][rng.randint(3)],
                include_all_fits=True, find_outliers=bool(rng.rand() < .4),
                season_add_mult=['auto', 'both', 'mult'][rng.randint(3)])
    r1 = obs.run(df, seed=case['seed'], **opts)
    types = ['int64', 'int32', 'int16', 'int8', 'uint8', 'uint16', 'uint32',
             'uint64', 'float32', 'Int64', 'Float64', 'object']
    for _ in range(3):
        df2 = df.copy()
        done = []
        for c in ('y', 'x', 'weight'):
            if c not in df2 or rng.rand() < .3:
                continue
            t = types[rng.randint(len(types))]
            if c == 'x' and (df.x.max() > 120 or df.x.min() < 0 and
                             t.startswith('u')):
                t = 'float32'
            df2[c] = df2[c].astype(t)
            done += [(c, t)]
        r2 = obs.run(df2, seed=case['seed'], **opts)
        for k in r1:
            # the range of the weights is printed as it was given
            no = [c for c in ('source_long', 'weights', 'actuals_x_range')
                  if c in r1[k]]
            d = obs.table_diff(r1[k].drop(columns=no), r2[k].drop(columns=no),
                               rtol=obs.NOISE)
            ctx.check(d is None, 'same_forecast', 'types {} of {} change '
                      '{}: {}', done, s.label, k, d)
        ctx.hit('dtypes')


def case_far(case, ctx, rng):
    """Dates far apart"""
    from anticipy import forecast
    n = int(rng.randint(2, 12))
    top = [4e3, 2e4, 6e4, 9e4][rng.randint(4)]
    date = pd.Timestamp('1700-01-01') + pd.to_timedelta(
        np.unique(rng.randint(0, int(top), n)) +
        int(rng.randint(0, 1000)), unit='D')
    if rng.rand() < .3:
        date = date + pd.to_timedelta(
            rng.randint(0, 86400, len(date)), unit='s')
    d = pd.DataFrame(dict(date=date, y=rng.normal(10, 1, len(date))))
    if rng.rand() < .4:
        d['source'] = 's'
    d = d.iloc[rng.permutation(len(d))]
    check_norm(ctx, d, forecast.normalize_df(d), True)
    ctx.hit('far')


def run_case(case, ctx):
    from anticipy import forecast
    rng = gen.rng_of('c01', case['kind'], case['freq'], case['seed'])
    kind = case['kind']
    if kind in ('tz', 'hours'):
        s = gen.make_series(rng, 'D', n=60)
        df = s.df()
        base = forecast.normalize_df(df)
        d2 = df.copy()
        if kind == 'tz':
            tz = ['Europe/London', 'US/Pacific', 'Asia/Kolkata'][case['seed']]
            d2['date'] = d2['date'].dt.tz_localize(
                tz, nonexistent='shift_forward', ambiguous=True)
        else:
            d2['date'] = d2['date'] + pd.to_timedelta(
                rng.randint(0, 23, len(d2)), unit='h')
        n2 = forecast.normalize_df(d2)
        ctx.check(list(base['x']) == list(n2['x']), 'norm_x',
                  'x axis depends on time of day or time zone')
        return
    if kind == 'badindex':
        s = gen.make_series(rng, None, n=20)
        df = s.df()
        idx = df['x'].values * 2 + 5
        df = pd.DataFrame({'y': df['y'].values}, index=idx)
        n1 = forecast.normalize_df(df)
        ctx.check([float(v) for v in n1['x']] == [float(v) for v in idx],
                  'norm_x', 'numeric index not used as x axis')
        d3 = pd.DataFrame({'y': s.y}, index=['r%02d' % i for i in range(20)])
        n3 = forecast.normalize_df(d3)
        ctx.check(list(n3['x']) == list(range(20)), 'norm_x',
                  'row position not used as x axis')
        return
    if kind == 'shuffled_sources':
        l = []
        for i in range(6):
            s = gen.make_series(rng, 'D', n=int(rng.randint(5, 20)))
            l.append(s.df().assign(source='s%d' % ((i * 5) % 7), weight=i))
        df = pd.concat(l).sample(frac=1, random_state=case['seed'])
        check_norm(ctx, df.reset_index(drop=True),
                   forecast.normalize_df(df), True)
        return
    if kind == 'clash':
        s = gen.make_series(rng, 'D', n=20)
        df = s.df()
        base = forecast.normalize_df(df)
        d2 = df.rename(columns={'y': 'v', 'date': 't'})
        d2['y'] = 'junk'
        d2['date'] = 1
        n2 = forecast.normalize_df(d2, col_name_y='v', col_name_date='t')
        d = obs.table_diff(base, n2)
        ctx.check(d is None, 'norm_clash', '{}', d)
        return

    if kind == 'dtype':
        return case_dtype(case, ctx, rng)
    if kind == 'far':
        return case_far(case, ctx, rng)

    freq, l_s, df = build(rng, case['freq'])
    dated = freq is not None
    ctx.state('base', freq, len(l_s), 'weight' in df, 'source' in df)
    norm = forecast.normalize_df(df)
    check_norm(ctx, df, norm, dated)
    df2, kw, done = present(rng, df, dated, ctx)
    ctx.note = ' '.join(done)
    norm2 = forecast.normalize_df(df2, **kw)
    d = obs.table_diff(norm, norm2)
    ctx.check(d is None, 'same_normalised',
              'presentation {} changes normalised table: {}', done, d)
    d = obs.table_diff(norm, forecast.normalize_df(norm))
    ctx.check(d is None, 'normalised_twice', 'normalised table changes when '
              'normalised: {}', d)
    if kind == 'norm':
        return
    opts = dict(extrapolate_years=float([0, .1, .5][rng.randint(3)]),
                include_all_fits=bool(rng.rand() < .5),
                find_outliers=bool(rng.rand() < .2))
    if df.duplicated([c for c in ('source', 'date', 'x')
                      if c in df.columns]).any():
        # rejected explicitly for series with several samples per date
        opts['find_outliers'] = False
        ctx.hit('repeated_samples')
    if dated and rng.rand() < .3:
        opts['date_start_actuals'] = str(df['date'].sort_values().iloc[
            2].date())
    r1 = obs.run(df, seed=case['seed'], **opts)
    r2 = obs.run(df2, seed=case['seed'], **dict(opts, **kw))
    d = obs.dict_diff(r1, r2, rtol=obs.NOISE)
    ctx.check(d is None, 'same_forecast',
              'presentation {} changes output: {}', done, d)
    if rng.rand() < .3:
        r3 = obs.run(norm, seed=case['seed'], **opts)
        d = obs.dict_diff(r1, r3, rtol=obs.NOISE)
        ctx.check(d is None, 'normalised_forecast',
                  'normalised table gives another output: {}', d)
    f2 = obs.run(df2, seed=case['seed'], simplify_output=True,
                 verbose=bool(rng.rand() < .5), **dict(opts, **kw))
    d = obs.table_diff(r1['forecast'], f2, rtol=obs.NOISE)
    ctx.check(d is None, 'simplified_output',
              'simplified output differs from full output: {}', d)
