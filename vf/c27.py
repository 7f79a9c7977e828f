"""C27 - metadata and optimiser tables describe the run truthfully.

Oracle: an independent account of the run (samples used, frequency, range of
dates and weights, parameters of each model) and a cross check of the three
tables of results, that must describe the same fits.
"""
import re

import numpy as np
import pandas as pd

from vf import gen, models, obs, ref

PROPERTY = 'C27'
RULE = ('random series and options: frequencies, gaps, weights, null values, '
        'outliers, repeated samples, first dates, 1-3 sources, candidates '
        'that are too long or reject the input, direct fits; non-trivial '
        'when rows of the tables were compared with the run')
FLOORS = {'linked': 450, 'freq': 200, 'range': 400, 'weights': 200,
          'params_str': 300, 'counters': 250, 'not_fitted': 60,
          'output_link': 300, 'best': 150, 'all_fits': 40, 'direct': 100,
          'ignored_samples': 60, 'outliers': 15, 'sources': 25,
          'numeric': 25}

POOL_X = ['linear', 'constant', 'ramp', 'linear_nondec', 'exponential',
          'decay', 'sigmoid', 'step', ['+', 'linear', 'ramp'],
          ['*', 'linear', 'step']]
SEASON = ['season_wday', 'season_month', 'season_fourier_yearly',
          'season_wday_2', 'null']
NUM = r'(?:nan|inf|[-+]?\d+\.?\d*(?:e[-+]?\d+)?)'
RE_W = re.compile('^(?:({n})-({n})|1)$'.format(n=NUM))


def cases(tier, seed):
    n = dict(quick=1, thorough=14)[tier]
    l = [dict(kind='run', seed=seed * 6229 + i) for i in range(230 * n)]
    l += [dict(kind='fit', seed=seed * 6229 + i) for i in range(150 * n)]
    return l


def pool():
    return [e for e in POOL_X if isinstance(e, list) or e in models.REF]


def parse(s):
    """Numbers in the representation of an array"""
    return [float(v) for v in re.findall(NUM, s)]


def check_params_str(ctx, s, p, name):
    v = parse(s)
    p = np.asarray(p, float)
    ok = len(v) == len(p) and all(
        (a != a and b != b) or abs(a - b) <= .0501 * max(1., abs(b))
        for a, b in zip(v, p))
    ctx.check(ok, 'params_str', 'parameters {} of {} are written as {}',
              p, name, s)


def check_weights(ctx, s, lo, hi, what):
    """Text is the range of weights"""
    m = RE_W.match(s)
    ctx.check(m is not None, 'weights', '{} written as {!r}', what, s)
    if m.group(1) is None:
        a = b = 1.
    else:
        a, b = float(m.group(1)), float(m.group(2))
    ctx.check(np.isclose(a, lo, rtol=1e-9, atol=0.) and
              np.isclose(b, hi, rtol=1e-9, atol=0.), 'weights',
              '{}: {} instead of {}-{}', what, s, lo, hi)


def day(v, dated):
    return str(pd.Timestamp(v).date()) if dated else float(v)


def check_range(ctx, s, lo, hi, dated, what):
    l = s.split('::')
    ctx.check(len(l) == 2, 'range', '{} is {!r}', what, s)
    got = l if dated else [float(v) for v in l]
    want = [day(lo, dated), day(hi, dated)]
    ok = got == want if dated else np.allclose(got, want, rtol=1e-9)
    ctx.check(ok, 'range', '{}: {} instead of {}', what, s, want)


def check_pair(ctx, m, o, dated):
    """A row of metadata and the row of optimize_info on the same fit"""
    name = m['model']
    ctx.check(str(o['model']) == name, 'linked',
              'model {} in one table is {} in the other', name, o['model'])
    for c in ('source', 'source_long', 'params_str'):
        ctx.check(m[c] == o[c], 'linked', '{} of {} is {} in metadata and {} '
                  'in optimize_info', c, name, m[c], o[c])
    ctx.check(bool(o['success']) == bool(m['is_fit']) ==
              (m['status'] == 'FIT'), 'linked', 'success of {} is {}, is_fit '
              '{} status {}', name, o['success'], m['is_fit'], m['status'])
    ca, cb = float(m['cost']), float(o['cost'])
    ctx.check(ca == cb or (ca != ca and cb != cb), 'linked',
              'cost of {} is {} in metadata and {} in optimize_info', name,
              ca, cb)
    mo = m['model_obj']
    ctx.check(str(mo) == name and mo == o['model'], 'linked',
              'model {} with object {} and {}', name, mo, o['model'])
    k = mo.n_params
    p = m['params']
    p = np.array([]) if p is None else np.asarray(p, float)
    if m['status'] in ('FIT', 'NO-FIT') and not (
            m['status'] == 'NO-FIT' and ca != ca):
        ctx.check(len(p) == k, 'params', '{} has {} parameters, reported {}',
                  name, k, p)
        if k:
            ctx.check(np.array_equal(p, np.asarray(o['params'], float)),
                      'params', 'parameters of {} are {} and {}', name, p,
                      o['params'])
            st = int(o['status'])
            ctx.check((st > 0) == bool(o['success']), 'counters',
                      '{}: status {} with success {}', name, st,
                      o['success'])
            ctx.check(o['iterations'] >= 1 and o['jac_evals'] >= 1 and
                      o['jac_evals'] <= o['iterations'] and
                      o['optimality'] >= 0, 'counters', '{}: {} iterations, '
                      '{} derivatives, optimality {}', name, o['iterations'],
                      o['jac_evals'], o['optimality'])
    elif m['status'] not in ('FIT', 'NO-FIT'):
        ctx.hit('not_fitted')
        ctx.check(len(p) == 0 and ca != ca and
                  np.isnan(float(m['aic_c'])), 'not_fitted',
                  '{} {} has parameters {} cost {} score {}', name,
                  m['status'], p, ca, m['aic_c'])
        ctx.check(o['status'] == m['status'] and
                  len(str(o['message'])) > 0, 'not_fitted', '{} is {} in '
                  'metadata and {} in optimize_info', name, m['status'],
                  o['status'])
    check_params_str(ctx, m['params_str'], p, name)
    t = float(m['fit_time'])
    ctx.check(np.isfinite(t) and t >= 0., 'fit_time', 'fit time of {}: {}',
              name, t)
    ctx.state(m['status'], name.split('_fixed')[0], dated)


def check_common(ctx, m, u, freq, dated, used=True):
    """Frequency, ranges of a row"""
    f = m['freq']
    ctx.check(f == freq or (freq is None and (f is None or f != f)), 'freq',
              'frequency {} instead of {}', f, freq)
    if u.n:
        check_range(ctx, m['actuals_x_range'], u.key[0], u.key[-1], dated,
                    'range of {}'.format(m['model']))
    pre, suf = '{}:'.format(m['source']), ':{}:{}'.format(
        m['freq'], m['actuals_x_range'])
    sl = m['source_long']
    ctx.check(sl.startswith(pre) and sl.endswith(suf), 'source_long',
              'identifier {} of source {} freq {} range {}', sl, m['source'],
              m['freq'], m['actuals_x_range'])
    if used and u.n:
        check_weights(ctx, sl[len(pre):len(sl) - len(suf)], u.w.min(),
                      u.w.max(), 'weights in the identifier of {}'.format(
                          m['model']))


def make(rng, ctx, freq, dated, spikes=False):
    n = None
    if rng.rand() < .25:
        n = int(rng.randint(1, 9))
    s = gen.make_series(rng, freq, n=n, gaps=rng.rand() < .25)
    d = s.df()
    if spikes:
        y = 100. + gen.wiggle(len(d), rng.randint(9))
        if len(d) > 20:
            for i in rng.choice(np.arange(6, len(d) - 6), 2, replace=False):
                y[i] += 60.
        d['y'] = y
    if rng.rand() < .55:
        d = ref.add_weights(rng, d, p_zero=.5)
        # ignored samples at the ends, with extreme weights at the others
        if rng.rand() < .5 and len(d) > 6:
            k = 1 + rng.randint(3)
            if rng.rand() < .5:
                d.loc[d.index[:k], 'weight'] = 0.
            else:
                d.loc[d.index[-k:], 'weight'] = 0.
    if rng.rand() < .4:
        d = ref.add_nulls(rng, d)
        if rng.rand() < .5 and len(d) > 4:
            d.loc[d.index[[0, -1][rng.randint(2)]], 'y'] = np.nan
    if rng.rand() < .15 and s.keep.all() and not spikes:
        # (outliers need one value per sample)
        d = ref.repeat_samples(rng, d)
    return d


def run_case(case, ctx):
    rng = gen.rng_of('c27', case['kind'], case['seed'])
    (direct if case['kind'] == 'fit' else whole)(case, ctx, rng)


def rand_models(rng, dated, freq):
    l = pool()
    l_e = [l[i] for i in rng.choice(len(l), 1 + rng.randint(4),
                                    replace=False)]
    l_s = []
    if dated and rng.rand() < .4:
        l_s = [SEASON[i] for i in rng.choice(
            len(SEASON), 1 + rng.randint(2), replace=False)]
    return l_e, l_s


def whole(case, ctx, rng):
    from anticipy import model_utils
    freq = [None, None, 'D', 'D', 'W', 'MS', 'M', 'QS', 'Y', 'H'][
        rng.randint(10)]
    dated = freq is not None
    n_src = int([1, 1, 1, 2, 3][rng.randint(5)])
    spikes = freq in (None, 'D', 'W') and rng.rand() < .25
    l_df = [make(rng, ctx, freq, dated, spikes) for i in range(n_src)]
    key = 'date' if dated else 'x'
    has_w = ['weight' in d for d in l_df]
    if n_src > 1:
        if any(has_w):
            l_df = [d if 'weight' in d else d.assign(weight=1.)
                    for d in l_df]
        names = [['b', 'a', 'c'], ['x:y', 'x', 'x:y:1']][
            rng.randint(2)][:n_src]
        df = pd.concat([d.assign(source=q) for d, q in zip(l_df, names)],
                       ignore_index=True)
        ctx.hit('sources', n_src)
    else:
        df, names = l_df[0], ['src']
    l_e, l_s = rand_models(rng, dated, freq)
    o = dict(trend=l_e, season=l_s, extrapolate_years=.05,
             season_add_mult=['add', 'mult', 'both'][rng.randint(3)])
    if rng.rand() < .4:
        o['naive'] = [[], ['naive']][rng.randint(2)]
    kw = models.kwargs(o)
    start = None
    if rng.rand() < .3 and n_src == 1 and len(df) > 4:
        start = df[key].sort_values().iloc[1 + rng.randint(len(df) // 2)]
        kw['date_start_actuals'] = start
    if spikes:
        kw['find_outliers'] = True
    if rng.rand() < .3:
        df = df.sample(frac=1., random_state=rng.randint(99))
    all_fits = rng.rand() < .75
    r = obs.run(df, seed=case['seed'], include_all_fits=all_fits, **kw)
    md, oi, data = r['metadata'], r['optimize_info'], r['data']
    if not dated:
        ctx.hit('numeric')
    for src, d in zip(names, l_df):
        if spikes:
            # weights of the actuals table tell which samples were ignored
            a = obs.adata(r, src)
            e = pd.DataFrame({key: a.date.values, 'y': a.y.values,
                              'weight': a.weight.values})
            if not dated:
                e[key] = e[key].astype(float)
            if (e.weight == 0).sum() > (
                    (d.weight == 0).sum() if 'weight' in d else 0):
                ctx.hit('outliers')
            u = ref.Used(e, dated)
        else:
            u = ref.Used(d, dated, start)
        fr = model_utils.detect_freq(
            pd.Series(sorted(pd.to_datetime(d[key])))) if dated else None
        m = md.loc[md.source == src]
        op = oi.loc[oi.source == src]
        ctx.check(len(set(m.model)) == len(m), 'linked',
                  'metadata has several rows of a model')
        if all_fits:
            ctx.check(sorted(m.model) == sorted(str(q) for q in op.model),
                      'linked', 'models {} in metadata, {} in optimize_info',
                      sorted(m.model), sorted(str(q) for q in op.model))
        w = u.in_range
        if 'weight' in w:
            lo, hi = w.weight.min(), w.weight.max()
        else:
            lo = hi = 1.
        if u.n < len(u.in_range):
            ctx.hit('ignored_samples')
        for _, row in m.iterrows():
            l_o = [q for _, q in op.iterrows()
                   if str(q['model']) == row['model']]
            ctx.check(len(l_o) == 1, 'linked', '{} rows of optimize_info for '
                      '{}', len(l_o), row['model'])
            check_pair(ctx, row, l_o[0], dated)
            check_common(ctx, row, u, fr, dated)
            if lo == lo:
                check_weights(ctx, row['weights'], lo, hi,
                              'weights of {}'.format(row['model']))
            # output of the model
            out = obs.fdata(r, src, row['model'])
            if len(out):
                ctx.check((out.source_long == row['source_long']).all(),
                          'output_link', 'output of {} identified as {} '
                          'instead of {}', row['model'],
                          set(out.source_long), row['source_long'])
                ctx.check((out.is_best_fit.astype(bool) == bool(
                    row['is_best_fit'])).all(), 'output_link',
                    'best model differs between tables: {}', row['model'])
        out = obs.fdata(r, src)
        ctx.check(set(out.model) <= set(m.loc[m.is_fit.astype(bool)].model),
                  'output_link', 'output of models {}, fitted {}',
                  set(out.model), set(m.model))
        a = obs.adata(r, src)
        ctx.check(a.source_long.nunique() == 1, 'actuals_link',
                  'actuals identified as {}', set(a.source_long))
        sl = a.source_long.iloc[0]
        ctx.check(sl.startswith(src + ':') and ':{}:'.format(fr) in sl,
                  'actuals_link', 'actuals of {} identified as {}', src, sl)
        lk = u.in_range[key]
        check_range(ctx, sl.split(':{}:'.format(fr), 1)[1]
                    if dated else sl.rsplit(':None:', 1)[1],
                    lk.min(), lk.max(), dated, 'range of actuals')
        best = m.loc[m.is_best_fit.astype(bool)]
        if len(best):
            ctx.hit('best')
            ctx.check(len(best) == 1 and bool(best.is_fit.iloc[0]), 'best',
                      '{} best models', len(best))
            f = r['forecast']
            f = obs.fc_rows(f.loc[f.source == src])
            ctx.check(set(f.model) <= set(best.model), 'best',
                      'forecast of {}, best model {}', set(f.model),
                      set(best.model))
    # all candidates are described, whether or not all fits are returned
    if rng.rand() < .35:
        r2 = obs.run(df, seed=case['seed'], include_all_fits=not all_fits,
                     **kw)
        dd = obs.table_diff(oi, r2['optimize_info'], rtol=obs.NOISE,
                            ignore=('optimality', 'iterations', 'jac_evals',
                                    'message', 'status'))
        ctx.check(dd is None, 'all_fits', 'optimize_info depends on '
                  'include_all_fits: {}', dd)
        mm = [q['metadata'] for q in (r, r2)]
        if not all_fits:
            mm.reverse()
        b = mm[0].loc[mm[0].is_best_fit].reset_index(drop=True)
        dd = obs.table_diff(b, mm[1], rtol=obs.NOISE)
        ctx.check(dd is None, 'all_fits', 'metadata of the best model '
                  'depends on include_all_fits: {}', dd)


def direct(case, ctx, rng):
    """forecast.fit_model"""
    from anticipy import forecast
    freq = [None, 'D', 'W', 'MS', 'H'][rng.randint(5)]
    dated = freq is not None
    d = make(rng, ctx, freq, dated)
    l_e, l_s = rand_models(rng, dated, freq)
    e = l_e[0] if not l_s else [['+', '*'][rng.randint(2)], l_e[0], l_s[0]]
    if rng.rand() < .1:
        e = 'naive'
    df = forecast.normalize_df(d)
    src = ['test', 'a:b', 'Ü'][rng.randint(3)]
    label = [freq, None, 'W'][rng.randint(3)]
    obs.seed_lib(case['seed'])
    kw = {}
    if e == 'naive':
        kw['df_actuals'] = df.assign(
            weight=df.weight if 'weight' in df else 1.)
        if df[['x']].duplicated().any():
            e = 'linear'
            kw = {}
    r = forecast.fit_model(models.get(e), df, label, src, **kw)
    md, oi = r['metadata'], r['optimize_info']
    ctx.check(len(md) == 1 and len(oi) == 1, 'direct',
              '{} and {} rows for one fit', len(md), len(oi))
    u = ref.Used(d, dated)
    m, o = md.iloc[0], oi.iloc[0]
    check_pair(ctx, m, o, dated)
    check_common(ctx, m, u, label, dated, used=False)
    ctx.check(m['source'] == src, 'direct', 'source {} instead of {}',
              m['source'], src)
    w = df.loc[~df.y.isnull()]
    if 'weight' in w and len(w) and not w.weight.isnull().all():
        check_weights(ctx, m['weights'], w.weight.min(), w.weight.max(),
                      'weights')
    elif 'weight' not in w:
        check_weights(ctx, m['weights'], 1., 1., 'weights')
