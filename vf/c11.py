"""C11 - sources are forecast independently of each other.

Oracle: differential - each source of a joint forecast against the forecast
of that source alone, with models of deterministic initial values; intervals
are random, and are checked to stay within the range of the residuals of
their own source (scales of sources differ by orders of magnitude).
"""
import numpy as np
import pandas as pd

from vf import gen, models, obs, ref

PROPERTY = 'C11'
RULE = ('2-5 random sources of mixed frequencies, scales, lengths, weights, '
        'some of which cannot be fitted, jointly, shuffled, alone, through '
        'lists of inputs and by aggregation; non-trivial when the rows of a '
        'source were compared between runs')
FLOORS = {'same_as_alone': 150, 'shuffled': 60, 'run_l': 30,
          'aggregate': 30, 'pi_own_range': 150, 'get_pi_joint': 30,
          'auto_same_candidates': 20}

DET = ['linear', 'linear_nondec', ['+', 'linear', 'ramp']]


def cases(tier, seed):
    n = dict(quick=110, thorough=1800)[tier]
    return [dict(seed=seed * 6151 + i, k=i % 10) for i in range(n)]


def make_sources(rng, dated, n_src, simple=False):
    l = []
    names = [['b', 'a', 'd', 'c', 'e'], ['10', '9', '2', '1', 'x'],
             ['z', 'Z', 'src', 'Src', '_'],
             [' a', 'a', 'a ', 'a.', 'a.b']][rng.randint(4)][:n_src]
    for i in range(n_src):
        freq = None if not dated else \
            ['D', 'D', 'W', 'MS', 'M', 'Q', 'H'][rng.randint(7)]
        if simple and dated:
            freq = ['D', 'W'][rng.randint(2)]
        n = None
        if rng.rand() < .15 and not simple:
            n = int(rng.randint(1, 5))
        s = gen.make_series(rng, freq, n=n, gaps=rng.rand() < .2 and
                            n is None)
        d = s.df()
        d['y'] = d.y * 10. ** rng.randint(-3, 4)
        d['weight'] = 1.
        if rng.rand() < .4 and n is None:
            d = ref.add_weights(rng, d)
        if rng.rand() < .2 and n is None:
            d = ref.add_nulls(rng, d)
        if rng.rand() < .07 and not simple:
            d['weight'] = 0.
        if rng.rand() < .07 and not simple:
            d['y'] = np.nan
        l.append((names[i], d))
    return l


def joint(l):
    return pd.concat([d.assign(source=n) for n, d in l], ignore_index=True)


def source_rows(r, src):
    out = {}
    for k in ('data', 'metadata', 'forecast', 'optimize_info'):
        t = r[k]
        out[k] = t.loc[t.source == src].reset_index(drop=True)
    return out


def compare(a, b, ctx, monitor, what):
    for k in ('data', 'metadata', 'forecast'):
        x, y = a[k], b[k]
        cols = [c for c in x.columns if c in y.columns]
        for t, o in ((x, y), (y, x)):
            extra = [c for c in t.columns if c not in o.columns]
            ctx.check(t[extra].isnull().all().all(), monitor,
                      '{}: {} has columns {}', what, k, extra)
        ign = [c for c in cols if c.startswith('q')]
        d = obs.table_diff(x[cols].drop(columns=ign),
                           y[cols].drop(columns=ign), rtol=obs.NOISE)
        ctx.check(d is None, monitor, '{}: table {}: {}', what, k, d)


def pi_range(f, u_n, ctx):
    """Intervals of one source stay within the range of its residuals"""
    q = [c for c in f.columns if c.startswith('q')]
    if not q:
        return
    a, b = obs.fc_rows(f, True), obs.fc_rows(f)
    if not len(b):
        return
    m = b.merge(a[['date', 'y']].rename(columns=dict(y='act')), on='date')
    res = (m['act'] - m['y'])
    if not len(res):
        return
    span = res.max() - res.min()
    last = a.date.max()
    k = int((b.date > last).sum())
    lim = span * (2 + k) * (1 + 1e-9) + 1e-9 * obs.scale_of(b.y)
    for c in q:
        dev = (b[c] - b['y']).abs().max()
        ctx.check(dev <= lim, 'pi_own_range', 'interval of source is {} away '
                  'from the forecast, residuals span {}', dev, span)


def run_case(case, ctx):
    from anticipy import forecast
    rng = gen.rng_of('c11', case['seed'])
    dated = rng.rand() < .8
    n_src = 2 + rng.randint(4)
    l = make_sources(rng, dated, n_src, simple=case['k'] in (8, 9))
    df = joint(l)
    l_t = [DET[i] for i in rng.choice(3, 1 + rng.randint(2), replace=False)]
    opt = dict(trend=l_t, season=[],
               extrapolate_years=float([0, .05, .3][rng.randint(3)]),
               include_all_fits=bool(rng.rand() < .6))
    if rng.rand() < .3:
        opt['naive'] = []
    kw = models.kwargs(opt)
    if rng.rand() < .25 and dated:
        lo = max(d.date.min() for _, d in l)
        hi = min(d.date.max() for _, d in l)
        if lo < hi:
            kw['date_start_actuals'] = lo
    if case['k'] == 7:
        # detected per source
        kw['season_add_mult'] = 'auto'
    elif case['k'] == 6 and all(d.y.notnull().all() for _, d in l):
        kw['find_outliers'] = True
    r = obs.run(df, seed=case['seed'], **kw)
    ctx.check(set(r['data'].source) == set(n for n, _ in l), 'sources',
              'sources {}', set(r['data'].source))
    l_alone = []
    for name, d in l:
        a = obs.run(d.assign(source=name), seed=case['seed'] + 1, **kw)
        l_alone.append(a)
        compare(source_rows(r, name), a, ctx, 'same_as_alone',
                'source {} of {}'.format(name, [t[0] for t in l]))
        if rng.rand() < .5:
            b = obs.run(d, seed=case['seed'] + 2, source_id=name, **kw)
            compare(a, b, ctx, 'source_id', 'source {} as source_id'.format(
                name))
        f = r['forecast']
        pi_range(f.loc[f.source == name], 0, ctx)
        ctx.state(dated, n_src, len(a['metadata']) > 0)
    # order of rows
    p = rng.permutation(len(df))
    r2 = obs.run(df.iloc[p].reset_index(drop=True), seed=case['seed'], **kw)
    for name, d in l:
        compare(source_rows(r2, name), source_rows(r, name), ctx, 'shuffled',
                'shuffled rows, source {}'.format(name))
    # other contents of the other sources
    l2 = [l[0]] + [(n, d.assign(y=d.y * -3 + 1)) for n, d in l[1:]]
    r3 = obs.run(joint(l2), seed=case['seed'], **kw)
    compare(source_rows(r3, l[0][0]), source_rows(r, l[0][0]), ctx,
            'other_values', 'values of other sources changed')
    # aggregation
    l_cols = ['data', 'metadata', 'optimize_info', 'forecast']
    # also several runs of one source, with other or the same results
    l_runs = list(l_alone)
    if rng.rand() < .5:
        l_runs.insert(int(rng.randint(len(l_runs) + 1)), obs.run(
            l[0][1].assign(y=l[0][1].y * 2 + 1), source_id=l[0][0],
            seed=case['seed'], **kw))
        l_runs.append(l_runs[0])
    agg = forecast.aggregate_forecast_dict_results(l_runs)
    for k in l_cols:
        ctx.check(len(agg[k]) == sum(len(t[k]) for t in l_runs),
                  'aggregate', '{} has {} rows of {}', k, len(agg[k]),
                  [len(t[k]) for t in l_runs])
        i = 0
        for t in l_runs:
            part = agg[k].iloc[i:i + len(t[k])].reset_index(drop=True)
            i += len(t[k])
            cols = list(t[k].columns)
            if k == 'optimize_info':
                cols = ['source', 'success', 'cost', 'message']
            dd = obs.table_diff(part[cols], t[k][cols].reset_index(
                drop=True), rtol=1e-12)
            ctx.check(dd is None, 'aggregate', 'aggregated {}: {}', k, dd)
        ctx.check(list(agg[k].index) == list(range(len(agg[k]))),
                  'aggregate', 'index of aggregated {}', k)
    # list of inputs
    l_in = [forecast.ForecastInput(n, d, kw['l_model_trend'], [],
                                   date_start_actuals=kw.get(
                                       'date_start_actuals'))
            for n, d in l]
    np.random.seed(3)
    kl = dict(extrapolate_years=kw['extrapolate_years'],
              include_all_fits=kw['include_all_fits'])
    if rng.rand() < .3:
        # documented defaults: no extrapolation, best fits only
        rl = forecast.run_l_forecast(l_in)
        kl = dict(extrapolate_years=0, include_all_fits=False)
    else:
        rl = forecast.run_l_forecast(l_in, **kl)
    for name, d in l:
        b = obs.run(d, source_id=name, l_model_trend=kw['l_model_trend'],
                    l_model_season=[], date_start_actuals=kw.get(
                        'date_start_actuals'), **kl)
        compare(source_rows(rl, name), b, ctx, 'run_l',
                'source {} of list'.format(name))
    ctx.check(list(rl['data'].source.drop_duplicates()) ==
              [n for n, _ in l], 'run_l', 'order of sources in list')
    # intervals of a joint table
    t = r['data'].drop(columns='model_obj', errors='ignore')
    if all(len(x['forecast']) and
           any(c.startswith('q') for c in x['forecast']) for x in l_alone):
        np.random.seed(5)
        fp = forecast.get_pi(t, n_sims=30)
        for name, _ in l:
            a = fp.loc[fp.source == name]
            b = r['forecast'].loc[r['forecast'].source == name]
            key = ['is_actuals', 'date', 'model', 'y']
            x = a[key].sort_values(key[:2], kind='stable')
            y = b[key].sort_values(key[:2], kind='stable')
            dd = obs.table_diff(x.reset_index(drop=True),
                                y.reset_index(drop=True), rtol=1e-12)
            ctx.check(dd is None, 'get_pi_joint', 'intervals of a joint '
                      'table: {}', dd)
            pi_range(a, 0, ctx)
    # automatic candidates
    if case['k'] in (8, 9) and dated:
        ka = dict(include_all_fits=True, season_add_mult='both')
        ra = obs.run(df, seed=1, **ka)
        for name, d in l:
            a = obs.run(d, seed=1, **ka)
            x = source_rows(ra, name)['metadata']
            y = a['metadata']
            ctx.check(sorted(zip(x.model, x.status)) ==
                      sorted(zip(y.model, y.status)),
                      'auto_same_candidates', 'candidates of {}: {} alone: '
                      '{}', name, sorted(x.model), sorted(y.model))
