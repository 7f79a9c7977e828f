"""C04 - reported fit matches the data.

Oracle: cost recomputed from the output tables and the input; bounds of the
reported model; weighted linear least squares as reference optimum.
"""
import numpy as np
import pandas as pd
from scipy import optimize

from vf import gen, models, obs, ref

PROPERTY = 'C04'
RULE = ('random series (all frequencies, weights, nulls, repeated samples, '
        'gaps, start date), 1-3 random candidate models; every fitted model '
        'is audited; non-trivial when at least one fit was audited')
FLOORS = {'cost': 100, 'params_reproduce_output': 100, 'bounds': 100,
          'optimal': 40, 'recovered': 10, 'repeated_samples': 5,
          'direct_cost': 120, 'residuals': 120,
          'optimize_direct': 100, 'null_weights': 5}

L_MODEL = ['linear', 'constant', 'linear_nondec', 'ramp', 'step', 'exp',
           'sigmoid_step', 'decay', 'two_steps', ['+', 'linear', 'ramp'],
           ['+', 'constant', 'sigmoid_step'], ['+', 'linear', 'step'],
           ['*', 'linear', 'ramp'], 'quasilinear', 'spike',
           ['+', 'constant', 'spike']]
L_DATED = ['season_wday', 'season_month', 'season_fourier_yearly',
           ['+', 'linear', 'season_wday'], ['*', 'linear', 'season_wday'],
           ['+', 'linear', 'season_month'],
           ['+', 'constant', 'season_wday_2'],
           ['+', 'linear', 'dummy_month_start'],
           ['+', 'linear', ['+', 'season_wday', 'season_fourier_yearly']]]
L_OPT = ['linear', 'constant', 'linear_nondec']
L_OPT_DATED = [['+', 'linear', 'season_wday'], ['+', 'constant',
                                                'season_wday'],
               ['+', 'linear', 'season_wday_2'],
               ['+', 'linear', 'season_month'],
               ['+', 'linear', 'dummy_month_start']]


def cases(tier, seed):
    n = dict(quick=240, thorough=4000)[tier]
    l = []
    for freq in [None] + gen.L_FREQ:
        for kind in ('audit', 'optimal', 'recover'):
            l.append(dict(kind=kind, freq=freq, seed=0))
    for i in range(n):
        l.append(dict(kind=['audit', 'audit', 'optimal', 'recover'][i % 4],
                      freq='any', seed=seed * 100003 + i))
    return l


def design(m, x, date, n):
    z = np.zeros(n)
    base = m(x, date, z)
    cols = []
    for i in range(n):
        e = z.copy()
        e[i] = 1.
        cols.append(m(x, date, e) - base)
    return base, np.array(cols).T


def run_case(case, ctx):
    rng = gen.rng_of('c04', case['kind'], case['freq'], case['seed'])
    kind = case['kind']
    s = gen.make_series(rng, case['freq'], gaps=rng.rand() < .25,
                        big=rng.rand() < .1)
    dated = s.freq is not None
    daily = s.freq in ('D',)
    df = s.df()
    e_true = p_true = None
    pool = L_OPT + (L_OPT_DATED if daily else
                    [['+', 'linear', 'dummy_month_start']]
                    if s.freq == 'W' else [])
    if kind == 'recover':
        e_true = pool[rng.randint(len(pool))]
        u0 = ref.Used(df, dated)
        p_true = models.rand_params(e_true, rng, u0.x)
        if e_true == 'linear_nondec':
            p_true[0] = abs(p_true[0])
        p_true[-1 if not isinstance(e_true, list) else 0] += 1.
        df['y'] = models.get(e_true)(
            u0.x.astype(float), u0.date, np.array(p_true))
    if rng.rand() < .5:
        df = ref.add_weights(rng, df)
    if rng.rand() < .3:
        df = ref.add_nulls(rng, df)
    if kind != 'recover' and s.keep.all() and rng.rand() < .3 \
            and s.freq != 'H':
        df = ref.repeat_samples(rng, df)
        ctx.hit('repeated_samples')
    start = None
    if rng.rand() < .25:
        start = s.grid[max(1, s.n // 5)]
        if dated:
            start = str(start)
    if kind == 'audit':
        l = list(L_MODEL) + (L_DATED if dated else [])
        l_e = [l[i] for i in rng.choice(len(l), 1 + rng.randint(3),
                                        replace=False)]
        if (df.y <= 0).any():
            l_e = [e for e in l_e if e != 'decay'] or ['linear']
        if (ref.Used(df, dated).x < 0).any():
            l_e = [e for e in l_e if e != 'quasilinear'] or ['linear']
        naive = rng.rand() < .4 and not df.duplicated(
            'date' if dated else 'x').any()
        if rng.rand() < .3:
            df['y'] = df['y'] * 10. ** rng.randint(-4, 7)
    elif kind == 'optimal':
        l_e = [pool[rng.randint(len(pool))]]
        if rng.rand() < .2:
            df['y'] = df['y'] * 10. ** rng.randint(-8, 5)
        naive = False
    else:
        l_e, naive = [e_true], False
    kw = dict(extrapolate_years=.1 if s.freq in (None, 'D', 'W') else 1.,
              include_all_fits=True,
              l_model_trend=[models.get(e) for e in l_e], l_model_season=[],
              l_model_naive=[models.get('naive')] if naive else [],
              date_start_actuals=start, use_cache=bool(rng.rand() < .7))
    if 'weight' in df.columns and rng.rand() < .5:
        # missing weights are zero
        df = df.copy()
        df.loc[df.weight == 0., 'weight'] = np.nan
    if start is None:
        direct(ctx, df, dated, l_e, case['seed'])
    r = obs.run(df, seed=case['seed'], **kw)
    u = ref.Used(df, dated, start)
    audit(ctx, r, u, dated)
    ctx.state(kind, s.freq, s.shape, len(l_e))
    md = r['metadata']
    ctx.note = '{} {} n={} {}'.format(s.label, l_e, u.n,
                                      list(md.status))
    if kind in ('optimal', 'recover'):
        fits = md.loc[md.is_fit.astype(bool) & (md.model != 'naive')]
        if not len(fits):
            return
        m = fits.model_obj.iloc[0]
        cost = float(fits.cost.iloc[0])
        n = len(fits.params.iloc[0])
        if kind == 'optimal':
            base, a = design(m, u.x.astype(float), u.date, n)
            w = u.wk
            lo, hi = np.full(n, -np.inf), np.full(n, np.inf)
            if l_e[0] == 'linear_nondec':
                lo[0] = 0.
            # scaled, tolerances of the reference solver are absolute
            s_w = 1. / (w.max() * max(np.abs(u.y - base).max(), 1e-300))
            cost *= s_w ** 2
            b = (u.y - base) * w * s_w
            aw = a * w[:, None] * s_w
            # columns scaled, so that the reference is accurate
            sc = np.maximum(np.abs(aw).max(axis=0), 1e-12 * s_w)
            sol = optimize.lsq_linear(aw / sc, b, bounds=(lo, hi), tol=1e-12)
            best = float(sol.cost)
            # lsq_linear is inaccurate for singular designs
            l_try = [np.linalg.lstsq(aw / sc, b, rcond=None)[0]]
            if np.isfinite(lo).any():
                fix = l_try[0].copy()
                fix[0] = max(fix[0], 0.)
                l_try = [fix]
            for v in l_try:
                best = min(best, .5 * float(np.sum((aw / sc @ v - b) ** 2)))
            tot = .5 * float(np.sum((u.y * w * s_w) ** 2))
            # The solver's stopping criteria are loose for singular designs,
            # e.g. a single distinct x
            sv = np.linalg.svd(aw / sc, compute_uv=False)
            singular = len(sv) < n or sv[-1] < 1e-6 * sv[0]
            slack = 1e-4 if singular else 1e-9
            ctx.check(cost <= best * (1 + 1e-3) + slack * tot, 'optimal',
                      'cost {} of {} is not optimal, {} is possible', cost,
                      m.name, best)
            ctx.check(cost >= best * (1 - 1e-3) - 1e-9 * tot,
                      'not_below_optimum', 'cost {} of {} is below {}',
                      cost, m.name, best)
        else:
            base, a = design(m, u.x.astype(float), u.date, n)
            sc = np.maximum(np.abs(a).max(axis=0), 1e-12)
            sv = np.linalg.svd((a * u.wk[:, None]) / sc, compute_uv=False)
            if len(sv) < n or sv[-1] < 1e-3 * sv[0]:
                return
            f = obs.fdata(r)
            want = models.get(e_true)(
                u.x_of(f['date']),
                pd.DatetimeIndex(f['date']) if dated else None,
                np.array(p_true))
            scale = obs.scale_of(u.y, want)
            ctx.check(obs.num_close(f['y'], want, 1e-3, 1e-3 * scale),
                      'recovered', '{} not recovered from exact samples: '
                      'max error {}', e_true,
                      lambda: np.abs(f['y'].values - want).max())


def direct(ctx, df, dated, l_e, seed):
    """Fit of the normalised table, without a forecast"""
    from anticipy import forecast
    d = forecast.normalize_df(df)
    u = ref.Used(df, dated)
    for e in l_e:
        m = models.get(e)
        obs.seed_lib(seed)
        md = forecast.fit_model(m, d)['metadata']
        if not bool(md.is_fit.iloc[0]):
            continue
        p = np.asarray(md.params.iloc[0], float)
        m = md.model_obj.iloc[0]  # simplified for few samples
        pred = np.asarray(m(u.x, u.date, p), float)
        want = .5 * np.sum(((u.y - pred) * u.wk) ** 2)
        tot = .5 * np.sum((u.y * u.wk) ** 2) + .5 * np.sum(
            (pred * u.wk) ** 2)
        cost = float(md.cost.iloc[0])
        ctx.check(abs(cost - want) <= 1e-7 * want + 1e-12 * tot,
                  'direct_cost', 'fit_model {}: cost {}, residuals of the '
                  'used samples give {}', e, cost, want)
        if df.get('weight') is not None and df.weight.isnull().any():
            ctx.hit('null_weights')
        # The functions below fit_model, with arrays
        res = np.asarray(forecast.get_residuals(
            p, m, u.x, u.y, u.date, u.wk), float)
        sc = np.abs(u.y) * u.wk + np.abs(pred) * u.wk
        ctx.check(res.shape == u.y.shape and np.all(
            np.abs(res - np.abs(u.y - pred) * u.wk) <= 1e-9 * sc + 1e-300),
            'residuals', 'get_residuals of {} are not the weighted '
            'differences', e)
        res1 = np.asarray(forecast.get_residuals(p, m, u.x, u.y, u.date),
                          float)
        ctx.check(np.all(np.abs(res1 - np.abs(u.y - pred)) <= 1e-9 * (
            np.abs(u.y) + np.abs(pred)) + 1e-300), 'residuals',
            'get_residuals of {} without weights', e)
        if m.n_params:
            o = forecast.optimize_least_squares(
                m, u.x, u.y, u.date, u.wk, use_cache=bool(seed % 2))
            if o.params.iloc[0] is None:
                continue
            q = np.asarray(o.params.iloc[0], float)
            out = np.asarray(m(u.x, u.date, q), float)
            want = .5 * np.sum(((u.y - out) * u.wk) ** 2)
            tol = 1e-7 * want + 1e-12 * tot
            ctx.check(len(o) == 1 and abs(float(o.cost.iloc[0]) - want) <=
                      tol, 'optimize_direct', 'optimize_least_squares {}: '
                      'cost {}, residuals give {}', e, o.cost.iloc[0], want)


def audit(ctx, r, u, dated):
    md = r['metadata']
    for _, row in md.loc[md.is_fit.astype(bool)].iterrows():
        f = obs.fdata(r, model=row['model'])
        ctx.hit('fits')
        m, p = row['model_obj'], np.asarray(row['params'], float)
        naive = row['model'] == 'naive'
        d_out = dict(zip(pd.to_datetime(f['date']) if dated else
                         f['date'], f['y']))
        keys = pd.DatetimeIndex(u.key) if dated else u.key
        pred = np.array([d_out.get(k, np.nan) for k in keys], float)
        if not naive:
            ctx.check(not np.isnan(pred).any(), 'output_at_samples',
                      'no output of {} for some used samples', row['model'])
        res = (u.y - pred) * u.wk
        want = .5 * np.nansum(res ** 2)
        tot = .5 * np.sum((u.y * u.wk) ** 2) + \
            .5 * np.nansum((pred * u.wk) ** 2)
        ctx.check(abs(row['cost'] - want) <= 1e-7 * want + 1e-12 * tot,
                  'cost', 'cost of {} is {}, residuals give {}',
                  row['model'], row['cost'], want)
        if naive:
            continue
        # parameters reproduce the output
        fx = u.x_of(f['date'])
        out = m(fx, pd.DatetimeIndex(f['date']) if dated else None, p)
        sc = obs.scale_of(f['y'])
        ctx.check(obs.num_close(out, f['y'], 1e-8, 1e-8 * sc),
                  'params_reproduce_output',
                  'output of {} is not that of its parameters {}',
                  row['model'], p)
        lo, hi = m.f_bounds(u.x, u.y, u.date)
        lo, hi = np.asarray(lo, float), np.asarray(hi, float)
        tol = 1e-9 * np.maximum(1, np.abs(p))
        ctx.check(p.shape == lo.shape and np.all(p >= lo - tol) and
                  np.all(p <= hi + tol), 'bounds',
                  'parameters {} of {} out of bounds {} {}', p, row['model'],
                  lo, hi)
        ctx.check(np.all(np.isfinite(p)), 'finite_params',
                  'parameters {} of {}', p, row['model'])


def known():
    """Additive dummies and calendars on series with huge values"""
    from anticipy import forecast
    d = pd.date_range('2020-01-01', periods=200)
    y = 10. + 3. * (d.day == 1) + np.sin(np.arange(200))
    m = models.get(['+', 'constant', 'dummy_month_start'])
    l = []
    for k in (1., 1e9):
        obs.seed_lib(1)
        md = forecast.fit_model(m, forecast.normalize_df(
            pd.DataFrame(dict(date=d, y=k * y))))['metadata']
        l.append(float(md.cost.iloc[0]) / k ** 2)
    yield ('huge_values', l[1] > 1.1 * l[0],
           'constant and dummy_month_start on values around 1e10: cost is '
           '{:.3g} of the squared unit, {:.3g} is possible'.format(
               l[1], l[0]))
