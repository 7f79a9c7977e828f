"""C10 - actuals are reported faithfully in the output.

Oracle: conservation between input and output - the multiset of used input
samples (date, value, weight, source) equals that of actuals rows.
"""
import numpy as np
import pandas as pd

from vf import gen, models, obs, ref

PROPERTY = 'C10'
RULE = ('random series and options (frequencies, weights incl. zero and '
        'missing, null values, repeated samples, gaps, requested first date, '
        '1-4 sources, too short series, models that cannot be fitted); '
        'non-trivial when actuals rows were compared with the input')
FLOORS = {'data_rows': 6000, 'sources': 200, 'forecast_rows': 5000,
          'model_rows': 3000, 'no_intervals': 150, 'single_table': 40}


def cases(tier, seed):
    n = dict(quick=260, thorough=5000)[tier]
    return [dict(seed=seed * 8837 + i) for i in range(n)]


def rows(df, cols):
    l = []
    for t in zip(*[df[c] for c in cols]):
        l.append(tuple('nan' if isinstance(v, float) and v != v else
                       (v if isinstance(v, str) else
                        v.isoformat() if isinstance(v, pd.Timestamp)
                        else round(float(v), 9)) for v in t))
    return sorted(l)


def diff(a, b):
    import collections
    ca, cb = collections.Counter(a), collections.Counter(b)
    if ca == cb:
        return None
    return 'extra {} missing {}'.format(list((ca - cb).items())[:3],
                                        list((cb - ca).items())[:3])


def run_case(case, ctx):
    from anticipy import forecast
    rng = gen.rng_of('c10', case['seed'])
    n_src = int([0, 1, 1, 2, 3, 4][rng.randint(6)])
    freq = [None, 'D', 'D', 'W', 'MS', 'M', 'Q', 'Y', 'H'][rng.randint(9)]
    dated = freq is not None
    l_df = []
    start = None
    dup = False
    use_w = rng.rand() < .6
    for i in range(max(1, n_src)):
        n = int(rng.randint(1, 8)) if rng.rand() < .2 else None
        s = gen.make_series(rng, freq, n=n, gaps=rng.rand() < .3)
        d = s.df()
        if use_w:
            d['weight'] = 1.
            if rng.rand() < .8:
                d = ref.add_weights(rng, d, p_zero=.6)
            if rng.rand() < .3:
                d.loc[d.index[rng.randint(len(d))], 'weight'] = np.nan
            if rng.rand() < .1:
                d['weight'] = 0.
        if rng.rand() < .4:
            d = ref.add_nulls(rng, d)
        if rng.rand() < .25 and s.keep.all():
            d = ref.repeat_samples(rng, d)
            dup = True
        l_df.append(d)
    if rng.rand() < .3:
        key = 'date' if dated else 'x'
        l_all = sorted(l_df[0][key])
        start = l_all[len(l_all) // 3]
        if len(l_df) > 1:
            # must leave samples in each source
            lo = max(t[key].min() for t in l_df)
            hi = min(t[key].max() for t in l_df)
            start = lo if lo <= hi else None
    if n_src == 0:
        df = l_df[0]
        l_src = ['src']
    else:
        names = ['s{}'.format(i) for i in range(n_src)]
        if rng.rand() < .3:
            names = ['Zürich', 'a b', '1', 'x:y'][:n_src]
        df = pd.concat([d.assign(source=n) for d, n in zip(l_df, names)],
                       ignore_index=True)
        l_src = names
    if rng.rand() < .5:
        df = df.sample(frac=1., random_state=rng.randint(999))
    simple = rng.rand() < .3
    opt = models.rand_options(rng, dated)
    if freq not in ('D',):
        opt.pop('season', None)
        opt.pop('calendar', None)
    else:
        opt.pop('season', None)
    if dup:
        opt['naive'] = []
        if opt.get('trend') == []:
            opt.pop('trend')
    kw = models.kwargs(opt)
    if start is not None:
        kw['date_start_actuals'] = start
    if n_src == 0 and rng.rand() < .5:
        kw['source_id'] = 'my source'
        l_src = ['my source']
    r = obs.run(df, seed=case['seed'], **kw)
    data, fc = r['data'], r['forecast']
    ctx.check(set(data.source) == set(l_src), 'sources',
              'sources {} expected {}', set(data.source), set(l_src))
    ctx.check(data.is_actuals.isin([True, False]).all() and
              fc.is_actuals.isin([True, False]).all(), 'mark',
              'is_actuals is not true or false')
    for src, d in zip(l_src, l_df):
        key = 'date' if dated else 'x'
        e = d if start is None else d.loc[d[key] >= start]
        e = e.rename(columns={key: 'date'})
        if 'weight' not in e:
            e = e.assign(weight=1.)
        cols = ['date', 'y', 'weight']
        a = obs.adata(r, src)
        dd = diff(rows(a, cols), rows(e, cols))
        ctx.check(dd is None, 'data_rows', 'actuals of source {}: {}', src,
                  dd)
        ctx.hit('data_rows', len(e))
        ctx.check((a.model == 'actuals').all(), 'actuals_model',
                  'actuals rows with model {}', set(a.model))
        ctx.check(a.date.is_monotonic_increasing, 'order',
                  'actuals are not in time order')
        f = fc.loc[fc.source == src]
        fa = obs.fc_rows(f, True)
        dd = diff(rows(fa, cols[:2]),
                  rows(e.loc[~e.y.isnull()], cols[:2]))
        ctx.check(dd is None, 'forecast_rows', 'actuals of source {} in the '
                  'forecast table: {}', src, dd)
        ctx.check((fa.model == 'actuals').all(), 'actuals_model',
                  'actuals rows with model {}', set(fa.model))
        ctx.hit('forecast_rows', len(fa))
        lq = [c for c in f.columns if c.startswith('q')]
        ctx.check(fa[lq].isnull().all().all(), 'no_intervals',
                  'actuals with intervals')
        # model rows
        o = obs.fdata(r, src)
        md = r['metadata']
        md = md.loc[md.source == src]
        fit = set(md.loc[md.is_fit.astype(bool)].model)
        for t in (o, obs.fc_rows(f)):
            ctx.check(set(t.model) <= fit, 'model_rows',
                      'forecast rows of models {}, fitted {}',
                      set(t.model), fit)
            ctx.check(not (t.model == 'actuals').any(), 'model_rows',
                      'forecast rows marked as actuals')
            ctx.hit('model_rows', len(t))
        ctx.check((o.weight == 1).all(), 'model_rows',
                  'forecast rows with weight {}', set(o.weight))
        ctx.state(freq, n_src, 'weight' in d, start is not None, dup,
                  len(fit) > 0, len(d) < 8)
    ctx.check(len(data) == len(obs.fdata(r)) + len(obs.adata(r)), 'mark',
              'rows are neither actuals nor forecast')
    if simple:
        f2 = obs.run(df, seed=case['seed'], simplify_output=True, **kw)
        dd = obs.table_diff(fc, f2, rtol=obs.NOISE)
        ctx.check(dd is None, 'single_table', 'simplified output: {}', dd)
    # helper that formats actuals
    dn = forecast.normalize_df(l_df[0])
    c = forecast.get_df_actuals_clean(dn, 'q', 'ql')
    e = l_df[0].rename(columns=dict(x='date'))
    if 'weight' not in e:
        e = e.assign(weight=1.)
    dd = diff(rows(c, ['date', 'y', 'weight']),
              rows(e, ['date', 'y', 'weight']))
    ctx.check(dd is None, 'helper', 'get_df_actuals_clean: {}', dd)
