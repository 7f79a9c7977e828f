"""C14 - initial values and bounds are always usable.

Monitor: contract on initial values and bounds of every model and of random
compositions, called directly with and without data, and recorded from the
calls of the solver while the library fits.
"""
import numpy as np
import pandas as pd

from vf import gen, models, obs, ref

PROPERTY = 'C14'
RULE = ('every model of the library, models made from dates, steps, spikes, '
        'lists and fixed parameters, and random compositions, for random and '
        'degenerate series (constant, monotonic, negative, huge, tiny, '
        'spikes at the ends, repeated samples, minimum length); non-trivial '
        'when initial values and bounds of a model that accepts the series '
        'were examined')
FLOORS = {'init_finite': 2000, 'init_in_bounds': 2000, 'bounds_ordered':
          2000, 'piecewise_range': 200, 'without_data': 100}


def cases(tier, seed):
    n = dict(quick=140, thorough=4000)[tier]
    return ([dict(kind='nodata', seed=0)] +
            [dict(kind='data', seed=seed * 3323 + i) for i in range(n)] +
            [dict(kind='fit', seed=seed * 3323 + i) for i in range(n // 2)])


L_SHAPE = gen.L_SHAPE + ['negative', 'huge', 'tiny', 'jump_first',
                         'jump_last', 'decreasing', 'two_values', 'integers',
                         'zeros', 'peak']


def values(shape, n, rng, t):
    if shape in gen.L_SHAPE:
        return gen.values(shape, n, rng, t=t)
    y = np.round(rng.normal(0, 1, n), 4)
    if shape == 'negative':
        return y * 5 - 100
    if shape == 'huge':
        return (y + 3) * 1e12
    if shape == 'tiny':
        return (y + 5) * 1e-9
    if shape == 'jump_first':
        y[0] = 500.
        return y
    if shape == 'jump_last':
        y[-1] = 500.
        return y
    if shape == 'decreasing':
        return 200. - np.arange(n) * 1.5
    if shape == 'two_values':
        return np.where(rng.rand(n) < .5, 1., 4.)
    if shape == 'integers':
        return np.round(y * 20).astype(float)
    if shape == 'zeros':
        return np.zeros(n)
    if shape == 'peak':
        return 50. - np.abs(np.arange(n) - n // 2)
    raise ValueError(shape)


def all_models():
    fm = models.fm()
    return {k: v for k, v in sorted(vars(fm).items())
            if isinstance(v, fm.ForecastModel)}


def special(rng, start, n):
    d = [str(gen.grid('D', start, int(i)).date())
         for i in sorted(rng.choice(n, 4, replace=False))]
    return [['spike_date', d[0], d[1]], ['step_date', d[2]],
            ['datelist', 'dl', [d[:2], d[2:]]], ['dummylist', 'dd', d],
            ['fix', 'linear', [None, 2.]], ['fix', 'ramp', [None, 1.]],
            ['fix', 'two_steps', [5., None, None, 1.]],
            ['fix', 'sigmoid_step', [None, None, .5]]]


def examine(ctx, m, args, what):
    """Contract of initial values and bounds"""
    b = m.f_bounds(*args)
    ctx.check(len(b) == 2, 'bounds_ordered', '{}: bounds {}', what, b)
    lo, hi = [np.asarray(v, float).ravel() for v in b]
    ctx.check(len(lo) == len(hi) == m.n_params, 'bounds_ordered',
              '{}: {} and {} bounds for {} parameters', what, len(lo),
              len(hi), m.n_params)
    ctx.check(bool((lo <= hi).all()), 'bounds_ordered', '{}: bounds {} {}',
              what, lo, hi)
    for mult in (False, True):
        i = np.asarray(m.f_init_params(*args, is_mult=mult), float)
        ctx.check(i.ndim == 1 and len(i) == m.n_params, 'init_finite',
                  '{}: {} initial values for {} parameters', what, i.shape,
                  m.n_params)
        ctx.check(bool(np.isfinite(i).all()), 'init_finite',
                  '{}: initial values {} (mult {})', what, i, mult)
        ctx.check(bool(((i >= lo) & (i <= hi)).all()), 'init_in_bounds',
                  '{}: initial values {} out of bounds {} {} (mult {})', what,
                  i, lo, hi, mult)
        ctx.check(models.fm().validate_initial_guess(i, (lo, hi)),
                  'validated', '{}: guess rejected', what)
    return lo, hi


def nodata(ctx):
    rng = gen.rng_of('c14nd')
    fm = models.fm()
    l = [(k, v) for k, v in all_models().items()]
    st = gen.grid_start('D', rng)
    l += [(str(e), models.get(e)) for e in special(rng, st, 50)]
    for _ in range(60):
        e = models.rand_expr(rng, 2, True)
        l.append((str(e), models.get(e)))
    for k, m in l:
        for args in ((), (None, None), (None, None, None)):
            for mult in (False, True):
                i = np.asarray(m.f_init_params(*args, is_mult=mult), float)
                ctx.check(i.shape == (m.n_params,) and
                          np.isfinite(i).all(), 'without_data', '{}: '
                          'initial values without data: {}', k, i)
                if args:
                    lo, hi = [np.asarray(v, float)
                              for v in m.f_bounds(*args)]
                    ctx.check(len(lo) == len(hi) == m.n_params and
                              (lo <= hi).all() and (i >= lo).all() and
                              (i <= hi).all(), 'without_data',
                              '{}: initial values {} bounds {} {} without '
                              'data', k, i, lo, hi)
    for v in ([1., np.nan], [np.nan]):
        try:
            fm.model_linear.f_init_params(np.array(v), np.ones(len(v)))
            ok = False
        except ValueError:
            ok = True
        ctx.check(ok, 'null_x', 'null x accepted')


def make(rng, n):
    shape = L_SHAPE[rng.randint(len(L_SHAPE))]
    freq = ['D', 'D', 'W', 'MS'][rng.randint(4)]
    st = gen.grid_start(freq, rng)
    l_date = gen.dates(freq, st, n)
    x = np.array([(t - st).days for t in l_date]) + st.weekday()
    y = values(shape, n, rng, x)
    if rng.rand() < .25:
        # gaps
        k = np.sort(rng.choice(n, max(4, int(n * .8)), replace=False))
        x, y, l_date = x[k], y[k], [l_date[i] for i in k]
    if rng.rand() < .2:
        # repeated samples
        k = np.sort(np.concatenate([np.arange(len(x)),
                                    rng.randint(0, len(x), 3)]))
        x, y, l_date = x[k], y[k], [l_date[i] for i in k]
        y = y + np.round(rng.normal(0, .1, len(y)), 3)
    if rng.rand() < .3:
        x = x.astype(float)
    if rng.rand() < .15:
        y = y.astype(int).astype(float)
    return shape, freq, st, x, y, l_date


def run_case(case, ctx):
    if case['kind'] == 'nodata':
        return nodata(ctx)
    rng = gen.rng_of('c14', case['seed'])
    if case['kind'] == 'fit':
        return fit_case(ctx, rng, case)
    n = int(rng.randint(4, 60)) if rng.rand() < .8 else \
        int(rng.randint(60, 500))
    shape, freq, st, x, y, l_date = make(rng, n)
    date = pd.DatetimeIndex(l_date)
    l = [(k, v) for k, v in all_models().items()]
    l += [(str(e), models.get(e)) for e in special(rng, st, max(n, 8))]
    for _ in range(6):
        e = models.rand_expr(rng, int(rng.randint(1, 3)), True)
        l.append((str(e), models.get(e)))
    for k, m in l:
        if len(x) < m.n_params + 2 or not m.validate_input(x, y, date):
            ctx.hit('not_accepted')
            continue
        d = None if rng.rand() < .4 else date
        what = '{} on {} n={}'.format(k, shape, len(x))
        lo, hi = examine(ctx, m, (x, y, d), what)
        if d is None:
            examine(ctx, m, (x, y), what)
        if k in ('model_ramp', 'model_sigmoid_step'):
            i = 0 if k == 'model_ramp' else 1
            ctx.check(x.min() <= lo[i] <= hi[i] <= x.max(),
                      'piecewise_range', '{}: bounds {}..{} out of {}..{}',
                      what, lo[i], hi[i], x.min(), x.max())
            ctx.hit(k)
    ctx.state(shape, freq, len(x) > len(np.unique(x)))


def fit_case(ctx, rng, case):
    """Starting points and bounds seen by the solver"""
    import scipy.optimize
    n = int(rng.randint(12, 60))
    shape, freq, st, x, y, l_date = make(rng, n)
    if shape == 'huge':
        y = y * 1e-6
    d = pd.DataFrame(dict(date=pd.to_datetime(l_date), y=y))
    # Gaps and repeated dates are not supported together
    d = d.drop_duplicates('date').reset_index(drop=True)
    l_e = [models.L_TREND[i] for i in rng.choice(8, 3, replace=False)]
    orig = scipy.optimize.least_squares
    l_rec = []

    def spy(fun, x0, *a, **k):
        l_rec.append((np.array(x0, float), k.get('bounds')))
        return orig(fun, x0, *a, **k)

    scipy.optimize.least_squares = spy
    try:
        r = obs.run(d, seed=case['seed'], include_all_fits=True,
                    l_model_trend=[models.get(e) for e in l_e],
                    l_model_season=[], l_model_naive=[])
    finally:
        scipy.optimize.least_squares = orig
    for x0, b in l_rec:
        ctx.check(np.isfinite(x0).all(), 'solver_start',
                  'solver started at {}', x0)
        if b is not None:
            lo, hi = [np.asarray(v, float) for v in b]
            ctx.check(((x0 >= lo) & (x0 <= hi) & (lo < hi)).all(),
                      'solver_start', 'solver started at {} with bounds {} '
                      '{}', x0, lo, hi)
    ctx.hit('solver_calls', len(l_rec))
    for _, row in r['metadata'].iterrows():
        if row.is_fit:
            ctx.check(np.isfinite(np.asarray(row.params, float)).all(),
                      'fitted_finite', 'fitted parameters {}', row.params)
