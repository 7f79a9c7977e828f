"""C26 - fixing parameters equals inserting their values.

Oracle: the same model with the fixed values inserted at their positions
(and the independent formulas of the built-in models); snapshots of the
original model and of the values given, before and after; results of fits
with coinciding bounds, compared to those values.
"""
import numpy as np
import pandas as pd

from vf import gen, models, obs

PROPERTY = 'C26'
RULE = ('random expressions of built-in models, subsets of fixed parameters '
        '(none to all), values incl. 0 and negative, nested fixing, '
        'compositions of fixed models, calls in random order, shared and '
        'overwritten lists of values; user models with coinciding bounds '
        'alone, composed and in forecasts; non-trivial when values of a '
        'fixed model were compared')
FLOORS = {'value': 900, 'formula': 700, 'initial': 400, 'bounds': 300,
          'count': 400, 'original': 180, 'shared': 300, 'nested': 35,
          'composed': 80, 'all_fixed': 300, 'simplified': 45, 'same': 25,
          'forecast': 30, 'fitted': 60,
          'extra': 90}


def cases(tier, seed):
    n = dict(quick=1, thorough=25)[tier]
    l = []
    for k, m in (('fix', 220), ('nested', 70), ('composed', 100),
                 ('all', 80), ('simplify', 160), ('forecast', 70),
                 ('extra', 50)):
        l += [dict(kind=k, seed=seed * 811 + i) for i in range(m * n)]
    return l


def axis(rng, dated=True):
    n = int(rng.randint(5, 60))
    f = ['D', 'D', 'W', 'MS'][rng.randint(4)]
    st = gen.grid_start(f, rng)
    g = gen.dates(f, st, n)
    x = np.array([gen.x_of_date(t, g[0]) for t in g], float)
    if rng.rand() < .3:
        p = rng.permutation(n)
        g, x = [g[i] for i in p], x[p]
    return x, pd.DatetimeIndex(g)


def expr(rng, depth=2):
    for _ in range(50):
        e = models.rand_expr(rng, depth)
        n = models.n_params(e)
        if 0 < n <= 40 and 'quasilinear' not in models.leaves(e):
            return e
    return 'linear'


def subset(rng, p):
    """Values to fix, null where free"""
    n = len(p)
    k = rng.rand()
    m = rng.rand(n) < (.5 if k < .6 else .15 if k < .8 else .85)
    if k > .95:
        m[:] = True
    return [float(v) if t else None for v, t in zip(p, m)]


def insert(fixed, free):
    it = iter(free)
    return [next(it) if v is None else v for v in fixed]


def nan(l):
    return [np.nan if v is None else v for v in l]


def close(ctx, mon, a, b, msg, *args):
    a = np.asarray(a, float) * np.ones(np.shape(b))
    ctx.check(obs.num_close(a, b, 1e-9, 1e-9 * obs.scale_of(b)), mon, msg,
              *args)


def run_case(case, ctx):
    rng = gen.rng_of('C26', case['kind'], case['seed'])
    with np.errstate(all='ignore'):
        globals()['case_' + case['kind']](case, ctx, rng)


def snapshot(m, x, date, p, seed):
    """What can be observed of a model"""
    out = [m.name, m.n_params]
    for mult in (False, True):
        out.append(np.asarray(m(x, date, p, is_mult=mult)) * np.ones(len(x)))
        np.random.seed(seed)
        out.append(np.asarray(m.f_init_params(x, np.cos(x), date, mult)))
    out += [np.asarray(v, float) for v in m.f_bounds(x, np.cos(x), date)]
    return out


def same(a, b):
    # numeric libraries may round differently from call to call
    def eq(u, v):
        if np.array_equal(u, v, equal_nan=u.dtype.kind == 'f'):
            return True
        return u.dtype.kind == 'f' and u.shape == v.shape and np.allclose(
            u, v, 1e-9, 1e-11 * max(1., np.nanmax(np.abs(v))), True)
    return all(eq(np.asarray(u), np.asarray(v)) for u, v in zip(a, b))


def examine(ctx, rng, e, base, m, fixed, x, date, seed):
    """m: base with fixed values"""
    n_free = sum(v is None for v in fixed)
    ctx.check(m.n_params == n_free, 'count', '{} with {} has {} parameters',
              e, fixed, m.n_params)
    for mult in (False, True):
        for _ in range(2):
            q = models.rand_params(e, rng, x)
            free = [v for v, f in zip(q, fixed) if f is None]
            full = insert(fixed, free)
            want = np.asarray(base(x, date, np.array(full), is_mult=mult),
                              float) * np.ones(len(x))
            arg = [free, np.array(free)][rng.randint(2)]
            if not free and rng.rand() < .5:
                arg = []
            keep = list(arg)
            got = m(x, date, arg, is_mult=mult)
            ctx.check(list(arg) == keep, 'shared', '{}: free parameters '
                      'were changed to {}', e, arg)
            close(ctx, 'value', got, want, '{} with {} and free {} (mult {}) '
                  'is {}, expected {}', e, fixed, free, mult,
                  np.ravel(got)[:3], want[:3])
            r = np.array([models.ref_eval(e, a, b, full, mult)
                          for a, b in zip(x, date)])
            close(ctx, 'formula', got, r, '{} with {} and free {} (mult {}) '
                  'is {}, its formula {}', e, fixed, free, mult,
                  np.ravel(got)[:3], r[:3])
        free_m = np.array([v is None for v in fixed])
        y = np.cos(x) * 5 + x
        args = [(), (x, y, date)][rng.randint(2)]
        np.random.seed(seed % 1000)
        i0 = np.asarray(base.f_init_params(*args, is_mult=mult), float)
        np.random.seed(seed % 1000)
        i1 = np.asarray(m.f_init_params(*args, is_mult=mult), float)
        ctx.check(i1.shape == (n_free,) and np.array_equal(
            i1, i0[free_m], equal_nan=True), 'initial', '{} with {}: initial '
            'values {}, {} without fixing', e, fixed, i1, i0)
    b0, b1 = base.f_bounds(x, y, date), m.f_bounds(x, y, date)
    for u, v in zip(b0, b1):
        ctx.check(np.array_equal(np.asarray(u, float).ravel()[free_m],
                                 np.asarray(v, float).ravel()), 'bounds',
                  '{} with {}: bounds {}, {} without fixing', e, fixed, b1,
                  b0)


def case_fix(case, ctx, rng):
    fm = models.fm()
    e = expr(rng)
    base = models.get(e)
    x, date = axis(rng)
    p = models.rand_params(e, rng, x)
    fixed = subset(rng, p)
    if rng.rand() < .2:
        fixed = [0. if v is not None else None for v in fixed]
    before = snapshot(base, x, date, np.array(p), case['seed'] % 9999)
    given = nan(fixed)
    if rng.rand() < .5:
        given = np.array(given)
    keep = np.array(given)
    m = fm.fix_params_fmodel(base, given)
    ctx.check(np.array_equal(np.asarray(given), keep, equal_nan=True),
              'shared', '{}: values to fix were changed', e)
    if rng.rand() < .5:  # the list is used for something else afterwards
        for i in range(len(given)):
            given[i] = 77.
    examine(ctx, rng, e, base, m, fixed, x, date, case['seed'])
    ctx.check(same(before, snapshot(base, x, date, np.array(p),
                                    case['seed'] % 9999)), 'original',
              '{} was changed by fixing {}', e, fixed)
    # Two models from the same one are independent
    fixed2 = subset(rng, models.rand_params(e, rng, x))
    m2 = fm.fix_params_fmodel(base, nan(fixed2))
    examine(ctx, rng, e, base, m2, fixed2, x, date, case['seed'])
    examine(ctx, rng, e, base, m, fixed, x, date, case['seed'])
    ctx.state('fix', len(p), sum(v is None for v in fixed))


def case_nested(case, ctx, rng):
    fm = models.fm()
    e = expr(rng)
    base = models.get(e)
    x, date = axis(rng)
    fixed = subset(rng, models.rand_params(e, rng, x))
    m = fm.fix_params_fmodel(base, nan(fixed))
    full = list(fixed)
    for _ in range(2):
        q = models.rand_params(e, rng, x)
        idx = [i for i, v in enumerate(full) if v is None]
        l = [q[i] if rng.rand() < .5 else None for i in idx]
        m = fm.fix_params_fmodel(m, nan(l))
        for i, v in zip(idx, l):
            full[i] = v
    ctx.hit('nested')
    examine(ctx, rng, e, base, m, full, x, date, case['seed'])


def case_composed(case, ctx, rng):
    """Fixed models as components"""
    fm = models.fm()
    e, e2 = expr(rng, 1), expr(rng, 1)
    base = models.get(e)
    x, date = axis(rng)
    fixed = subset(rng, models.rand_params(e, rng, x))
    m = fm.fix_params_fmodel(base, nan(fixed))
    op = '+*'[rng.randint(2)]
    swap = rng.rand() < .5
    o = models.get(e2)
    c = (o + m if op == '+' else o * m) if swap else \
        (m + o if op == '+' else m * o)
    whole = [op, e2, e] if swap else [op, e, e2]
    pads = [None] * models.n_params(e2)
    f_all = pads + fixed if swap else fixed + pads
    for mult in (False, True):
        q = models.rand_params(whole, rng, x)
        free = [v for v, f in zip(q, f_all) if f is None]
        got = c(x, date, free, is_mult=mult)
        full = insert(f_all, free)
        r = np.array([models.ref_eval(whole, a, b, full, mult)
                      for a, b in zip(x, date)])
        close(ctx, 'composed', got, r, '{} of {} with {} and {} (swapped {})'
              ', free {}: {}, its formula {}', op, e, fixed, e2, swap, free,
              np.ravel(got)[:3], r[:3])
    # with cached variables
    kw = c.init_cache(x, date)
    got = c(x, date, free, is_mult=True, **kw)
    close(ctx, 'composed', got, r, '{} of {} with {} and {}: with cache {}, '
          'its formula {}', op, e, fixed, e2, np.ravel(got)[:3], r[:3])
    ctx.check(c.n_params == len(free), 'count', 'composition has {} '
              'parameters, {} are free', c.n_params, len(free))


def case_all(case, ctx, rng):
    fm = models.fm()
    e = expr(rng)
    base = models.get(e)
    x, date = axis(rng)
    p = models.rand_params(e, rng, x)
    given = list(p) if rng.rand() < .5 else np.array(p)
    m = fm.get_fixed_model(base, given)
    if rng.rand() < .5:
        for i in range(len(given)):
            given[i] = -33.
    ctx.check(m.n_params == 0, 'count', '{} parameters', m.n_params)
    for mult in (False, True):
        r = np.array([models.ref_eval(e, a, b, p, mult)
                      for a, b in zip(x, date)])
        for arg in (None, []):
            got = m(x, date, arg, is_mult=mult)
            close(ctx, 'all_fixed', got, r, '{} fixed at {} (mult {}) is {},'
                  ' its formula {}', e, p, mult, np.ravel(got)[:3], r[:3])
    ctx.check(len(m.f_init_params(x, np.cos(x), date)) == 0, 'all_fixed',
              'initial values for no parameters')
    for bad in (list(p) + [1.], list(p)[:-1]):
        try:
            fm.get_fixed_model(base, bad)
            ok = False
        except (ValueError, AssertionError):
            ok = True
        ctx.check(ok, 'all_fixed', '{} values accepted for {} parameters',
                  len(bad), len(p))
        try:
            fm.fix_params_fmodel(base, bad)
            ok = False
        except (ValueError, AssertionError):
            ok = True
        ctx.check(ok, 'all_fixed', '{} values accepted for {} parameters',
                  len(bad), len(p))
    # Steps and spikes with given sizes
    a, d, w = float(rng.choice(x)), float(rng.uniform(-5, 5)), \
        float(rng.randint(1, 9))
    for mult in (False, True):
        for mod, en, q in ((fm.create_fixed_step(d, a), 'step', [a, d]),
                           (fm.create_fixed_spike(d, a, w), 'spike',
                            [d, a, a + w])):
            r = np.array([models.ref_eval(en, v, None, q, mult) for v in x])
            close(ctx, 'all_fixed', mod(x, date, [], is_mult=mult), r,
                  'fixed {} {} is not its formula', en, q)
    ig = fm.create_fixed_spike_ignored(a, w)
    o = fm.model_linear * ig
    got = o(x, date, [2., 1.])
    r = np.where((x >= a) & (x < a + w), 0., 2. * x + 1)
    close(ctx, 'all_fixed', got, r, 'ignored spike at {} for {}', a, w)


def case_extra(case, ctx, rng):
    """Fixed models get actuals and other arguments, like the original"""
    fm = models.fm()
    e = expr(rng, 1)
    n = int(rng.randint(8, 40))
    st = gen.grid_start('D', rng)
    g = gen.dates('D', st, n)
    x, date = np.arange(n, dtype=float), pd.DatetimeIndex(g)
    act = pd.DataFrame({'date': date, 'x': x,
                        'y': np.round(rng.normal(50, 9, n), 2)})
    if rng.rand() < .5:
        act.loc[rng.choice(n, 2), 'y'] = np.nan
    k = int(rng.randint(3))
    o = [fm.model_naive, fm.model_snaive_wday, fm.ForecastModel(
        'user_extra', 0, lambda a_x, a_date, params, is_mult=False, gain=1.,
        **kwargs: gain * np.asarray(a_x, float))][k]
    kw = dict(gain=float(rng.uniform(1, 5))) if k == 2 else dict(
        df_actuals=act)
    op = '+*'[rng.randint(2)]
    base = models.get(e) + o if op == '+' else models.get(e) * o
    cached = rng.rand() < .5
    if cached:
        kw.update(base.init_cache(x, date))
    p = models.rand_params(e, rng, x)
    whole = rng.rand() < .5
    fixed = list(p) if whole else subset(rng, p)
    m = fm.get_fixed_model(base, p) if whole else fm.fix_params_fmodel(
        base, nan(fixed))
    free = [v for v, f in zip(p, fixed) if f is None]
    for mult in (False, True):
        want = np.asarray(base(x, date, np.array(p), is_mult=mult, **kw),
                          float)
        got = m(x, date, np.array(free), is_mult=mult, **kw)
        ctx.check(obs.num_close(got, want, 1e-9, 1e-9 * obs.scale_of(
            want[np.isfinite(want)])), 'extra', '{} of {} and {} with {} is '
            '{}, expected {}', op, e, o, fixed, np.ravel(got)[:3], want[:3])
    ctx.state('extra', k, op, cached, whole)


def user_model(rng, e, n, eq, x, narrow={}):
    """A model with bounds that coincide for some parameters"""
    fm = models.fm()
    base = models.get(e)

    def f_bounds(a_x=None, a_y=None, a_date=None):
        lo, hi = base.f_bounds(a_x, a_y, a_date)
        lo = np.array(lo, float).copy()
        hi = np.array(hi, float).copy()
        for i, v in eq.items():
            lo[i] = hi[i] = v
        for i, (a, b) in narrow.items():
            lo[i], hi[i] = a, b
        return lo, hi

    def f_init(a_x=None, a_y=None, a_date=None, is_mult=False):
        i = np.array(base.f_init_params(a_x, a_y, a_date, is_mult), float)
        for k, v in eq.items():
            i[k] = v
        for k, (a, b) in narrow.items():
            i[k] = a + (b - a) / 2
        return i
    return fm.ForecastModel('user_' + str(n), base.n_params, base.f_model,
                            f_init, f_bounds)


def case_simplify(case, ctx, rng):
    fm = models.fm()
    e = expr(rng, int(rng.randint(0, 3)))
    x, date = axis(rng)
    y = np.cos(x) * 3 + x
    p = models.rand_params(e, rng, x)
    fixed = subset(rng, p) if rng.rand() < .7 else [None] * len(p)
    eq = {i: v for i, v in enumerate(fixed) if v is not None}
    # Bounds that differ, by very little, do not fix a parameter
    narrow = {}
    for i, v in enumerate(fixed):
        if v is None and rng.rand() < .15:
            w = [1e-300, 5e-324, 1e-12, 1e-9, 1e-6][rng.randint(5)]
            narrow[i] = (0., w) if rng.rand() < .5 else (
                p[i], max(p[i] + w, np.nextafter(p[i], np.inf)))
            ctx.hit('narrow_bounds')
    m = user_model(rng, e, case['seed'], eq, x, narrow)
    # bounds of the model itself could coincide
    lo, hi = m.f_bounds(x, y, date)
    for i in range(len(p)):
        if fixed[i] is None and lo[i] == hi[i]:
            fixed[i] = float(lo[i])
    before = snapshot(m, x, date, np.array(p), 5)
    s = fm.simplify_model(m, x, y, date)
    ctx.check(same(before, snapshot(m, x, date, np.array(p), 5)), 'original',
              '{} was changed', e)
    if not any(v is not None for v in fixed):
        ctx.check(s is m or (s.name == m.name and
                             s.n_params == m.n_params), 'same',
                  '{} was changed to {}', m, s)
    else:
        ctx.hit('simplified')
    examine(ctx, rng, e, m, s, fixed, x, date, case['seed'])


def case_forecast(case, ctx, rng):
    """Forecasts with coinciding bounds, and with fixed models"""
    fm = models.fm()
    s = gen.make_series(rng, ['D', 'W', 'MS', None][rng.randint(4)],
                        n=int(rng.randint(16, 60)))
    dated = s.freq is not None
    pool = ['linear', 'constant', ['+', 'linear', 'constant'],
            ['*', 'linear', 'constant']]
    if s.freq == 'D':
        pool += [['+', 'linear', 'season_wday'],
                 ['*', 'linear', 'season_wday'], 'season_wday_2']
    e = pool[rng.randint(len(pool))]
    d = s.df()
    x = np.array([gen.x_of_date(t, s.grid[0]) for t in s.grid], float) \
        if dated else np.array(s.grid, float)
    q = models.rand_params(e, rng, np.array([0., 5.]))
    fixed = subset(rng, [float(v) for v in q])
    if rng.rand() < .15:
        fixed = [None if i else 0. for i, v in enumerate(fixed)]
    eq = {i: v for i, v in enumerate(fixed) if v is not None}
    by_bounds = rng.rand() < .5
    if by_bounds:
        m = user_model(rng, e, case['seed'], eq, x)
    else:
        m = fm.fix_params_fmodel(models.get(e), nan(fixed))
    years = float([0, .1, .5][rng.randint(3)])
    r = obs.run(d, seed=case['seed'], l_model_trend=[m], l_model_season=[],
                l_model_naive=[], extrapolate_years=years,
                include_all_fits=True)
    md = r['metadata']
    ctx.check(len(md) == 1, 'fitted', '{} candidates', len(md))
    if not bool(md.is_fit.iloc[0]):
        ctx.hit('not_fit')
        return
    free = np.asarray(md.params.iloc[0], float)
    ctx.check(len(free) == sum(v is None for v in fixed), 'fitted', '{} with '
              '{} fixed was fitted with parameters {}', e, fixed, free)
    full = insert(fixed, list(free))
    f = obs.fdata(r)
    xf = np.array([gen.x_of_date(pd.Timestamp(t).to_pydatetime(), s.grid[0])
                   for t in f.date], float) if dated else \
        f.date.values.astype(float)
    want = np.array([models.ref_eval(e, a, pd.Timestamp(b) if dated else None,
                                     full) for a, b in zip(xf, f.date)])
    close(ctx, 'forecast', f.y.values, want, '{} with {} fixed (bounds {}), '
          'fitted {}: forecast {}, its formula {}', e, fixed, by_bounds,
          free, f.y.values[:3], want[:3])
    # as good as the least squares solution of what is left
    if e[0] == '*' or len(free) == 0:
        pred = want[:len(d)]
        if len(f) < len(d):
            return
    else:
        z = np.array([[models.ref_eval(e, a, pd.Timestamp(b) if dated else
                                       None, insert(fixed, list(t)))
                       for a, b in zip(x, s.grid)]
                      for t in np.vstack([np.zeros(len(free)),
                                          np.eye(len(free))])])
        a = (z[1:] - z[0]).T
        sol = np.linalg.lstsq(a, s.y - z[0], rcond=None)[0]
        best = .5 * float(((s.y - z[0] - a @ sol) ** 2).sum())
        cost = float(md.cost.iloc[0])
        ctx.check(cost <= best * (1 + 1e-4) + 1e-6 * float(
            (s.y ** 2).sum()), 'fitted', '{} with {} fixed: cost {}, best '
            'possible {}', e, fixed, cost, best)
    ctx.state('forecast', by_bounds, str(e), len(free), s.freq)
