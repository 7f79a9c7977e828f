"""C09 - fit and forecast use one model, one x axis.

Monitor: spy models, passed through the public API, that record every array
they are given in each phase (initial values, bounds, validation, cache, fit,
extrapolation); oracle: own x axis and own selection of used samples, and
independent model formulas for the forecast values.
"""
import numpy as np
import pandas as pd

from vf import gen, models, obs, ref

PROPERTY = 'C09'
RULE = ('random series (frequencies, gaps, weights, nulls, repeated samples, '
        'requested first date, user x axis, sources) forecast with spy models '
        'alone and in compositions, and with built-in models; non-trivial '
        'when calls of a spy in both phases were compared')
FLOORS = {'same_x': 150, 'fit_x': 1000, 'fit_samples': 1000,
          'extrapolation_x': 150, 'value_is_model': 200,
          'builtin_values': 100, 'init_samples': 150}

BUILTIN = ['linear', 'constant', 'ramp', ['+', 'linear', 'ramp'],
           ['+', 'constant', 'step'], 'sigmoid_step', ['*', 'linear', 'ramp']]
SEASON = ['season_wday', 'season_wday_2', 'dummy_month_start', 'null']


def cases(tier, seed):
    n = dict(quick=400, thorough=5000)[tier]
    return [dict(seed=seed * 7717 + i) for i in range(n)]


class Spy:
    """A model that records what it is given. y = a x / 100 + b + c f(x)"""

    def __init__(self, name, dated, need_x=False):
        self.l_call, self.l_init, self.l_val, self.l_cache = [], [], [], []
        self.l_bounds = []
        fm = models.fm()
        spy = self

        def f_model(a_x, a_date, params, is_mult=False, **kwargs):
            spy.l_call.append((np.array(a_x, float), spy.dates(a_date)))
            c = kwargs.get('spy_cache_' + name)
            if c is not None:
                spy.l_cache.append((c, np.array(a_x, float),
                                    spy.dates(a_date)))
            return spy.formula(np.asarray(a_x, float), params)

        def f_init(a_x=None, a_y=None, a_date=None, is_mult=False):
            spy.l_init.append((np.array(a_x, float), np.array(a_y, float)))
            return np.array([1., 1.])

        def f_bounds(a_x=None, a_y=None, a_date=None):
            if a_x is not None:
                spy.l_bounds.append((np.array(a_x, float),
                                     np.array(a_y, float)))
            return [-np.inf, -np.inf], [np.inf, np.inf]

        def validate(a_x, a_y, a_date):
            spy.l_val.append((np.array(a_x, float), np.array(a_y, float),
                              spy.dates(a_date)))
            return True

        def cache(a_x, a_date):
            return (np.array(a_x, float), spy.dates(a_date))

        self.model = fm.ForecastModel(
            name, 2, f_model, f_init, f_bounds, validate,
            dict_f_cache={'spy_cache_' + name: cache})

    @staticmethod
    def dates(a_date):
        if a_date is None or not isinstance(a_date, pd.DatetimeIndex):
            return None
        return [pd.Timestamp(t) for t in a_date]

    @staticmethod
    def formula(x, p):
        return p[0] * x / 100. + p[1] * (1 + .1 * np.sin(x / 50.))


def make(rng):
    freq = [None, 'D', 'D', 'W', 'MS', 'M', 'Q', 'YS', 'H'][rng.randint(9)]
    s = gen.make_series(rng, freq, gaps=rng.rand() < .3)
    d = s.df()
    if rng.rand() < .4:
        d = ref.add_weights(rng, d, p_zero=.8)
        if rng.rand() < .3:
            k = rng.randint(1, 4)
            d.loc[d.index[:k], 'weight'] = 0.
            d.loc[d.index[-k:], 'weight'] = [0., np.nan][rng.randint(2)]
    if rng.rand() < .3:
        d = ref.add_nulls(rng, d)
    dup = False
    if s.keep.all() and rng.rand() < .2:
        d = ref.repeat_samples(rng, d)
        dup = True
    start = None
    if rng.rand() < .3 and s.n > 10:
        start = s.grid[int(rng.randint(1, s.n // 3))]
    user_x = None
    if freq is not None and rng.rand() < .15:
        # user x axis in days
        user_x = int(rng.randint(-50, 500))
        d['x'] = [(t - pd.Timestamp(s.start)).days + user_x for t in d.date]
    if rng.rand() < .4:
        d = d.sample(frac=1., random_state=rng.randint(999))
    return s, d, start, dup, user_x


def run_case(case, ctx):
    rng = gen.rng_of('c09', case['seed'])
    s, d, start, dup, user_x = make(rng)
    dated = s.freq is not None
    u = ref.Used(d.drop(columns='x') if user_x is not None else d, dated,
                 start)
    off = 0
    if user_x is not None:
        off = user_x - s.start.weekday()
    if u.n < 6:
        return
    mode = ['alone', 'add', 'mult', 'sum'][rng.randint(4)]
    name = 'spy' if mode != 'alone' or rng.rand() < .8 else 'sigmoid'
    spy = Spy(name, dated)
    l_t = [spy.model]
    l_s = []
    e_other = None
    if mode == 'sum':
        l_t = [spy.model + models.get('ramp')]
        if u.df.x.nunique() < 8:
            return
    elif mode in ('add', 'mult'):
        if s.freq == 'D' and u.n > 20 and \
                u.date.weekday.nunique() == 7:
            e_other = SEASON[rng.randint(3)]
            l_s = [models.get(e_other)]
    years = float([0., .1, .3, 1.][rng.randint(4)])
    if s.freq == 'H':
        years /= 30
    cache = bool(rng.rand() < .7)
    kw = dict(l_model_trend=l_t, l_model_season=l_s,
              season_add_mult='mult' if mode == 'mult' else 'add',
              l_model_naive=[], extrapolate_years=years, use_cache=cache,
              include_all_fits=True)
    if start is not None:
        kw['date_start_actuals'] = start
    r = obs.run(d, seed=case['seed'], **kw)
    scaled = name == 'sigmoid'
    t = obs.fdata(r)
    if r['metadata'].status.iloc[0] == 'TS_TOO_SHORT':
        return
    ctx.check(r['metadata'].is_fit.all(), 'fitted', 'spy was not fitted: {}',
              r['metadata'].status.tolist())

    def canon(x):
        # x axis in days; models that ask for a scaled axis are compared
        # between phases only
        return np.asarray(x, float) - off

    # 1. the same date always comes with the same x
    d_x = {}
    for l_x, l_d in spy.l_call:
        if l_d is None:
            continue
        ctx.check(len(l_x) == len(l_d), 'aligned', 'x and date lengths '
                  'differ')
        for x, dt in zip(l_x, l_d):
            v = d_x.setdefault(dt, x)
            ctx.check(v == x, 'same_x', 'date {} was given to the model as '
                      'x={} and x={}', dt, v, x)
    # 2. extrapolation: the call with the output dates
    x_out = u.x_of(t.date)
    last = spy.l_call[-1]
    ctx.check(len(last[0]) == len(t), 'extrapolation_x', 'model was '
              'evaluated on {} samples, output has {}', len(last[0]), len(t))
    if not scaled:
        ctx.check(np.array_equal(canon(last[0]), x_out), 'extrapolation_x',
                  'x of the forecast {}.. expected {}.. first date {}',
                  canon(last[0])[:5], x_out[:5], u.first_all)
    if dated:
        ctx.check(last[1] == [pd.Timestamp(v) for v in t.date],
                  'extrapolation_x', 'dates of the forecast differ from the '
                  'dates given to the model')
    # 3. fit: only used samples, all of them, aligned
    x_fit = np.sort(u.x)
    for l_x, l_d in spy.l_call[:-1]:
        if scaled:
            ctx.check(len(l_x) == u.n, 'fit_samples', 'fit with {} samples '
                      'instead of {}', len(l_x), u.n)
            if dated:
                ctx.check(sorted(l_d) == sorted(u.date), 'fit_samples',
                          'fit with other dates')
            continue
        ctx.check(np.array_equal(np.sort(canon(l_x)), x_fit), 'fit_x',
                  'fit with x {}.. ({}) expected {}.. ({})', canon(l_x)[:6],
                  len(l_x), x_fit[:6], len(x_fit))
        if dated:
            ctx.check(sorted(l_d) == sorted(u.date), 'fit_samples',
                      'fit with dates {}.. expected {}..', l_d[:4],
                      list(u.date[:4]))
            ctx.check(np.array_equal(canon(l_x), u.x_of(l_d)), 'fit_samples',
                      'x and dates of fit are not aligned')
        else:
            ctx.hit('fit_samples')
    # numeric: x of fit and forecast share one axis
    if not scaled:
        xy = sorted(zip(u.x, u.y))
        for l_x, l_y in spy.l_init + spy.l_bounds:
            ctx.check(sorted(zip(canon(l_x), l_y)) == xy, 'init_samples',
                      'initial values or bounds from other samples')
        for l_x, l_y, l_d in spy.l_val:
            ctx.check(sorted(zip(canon(l_x), l_y)) == xy, 'init_samples',
                      'validation of other samples')
    for (c_x, c_d), l_x, l_d in spy.l_cache:
        ctx.check(np.array_equal(c_x, l_x) and c_d == l_d, 'cache_samples',
                  'cached values belong to other samples')
    # 4. forecast = model at that date with the reported parameters
    p = np.asarray(r['metadata'].params.iloc[0], float)
    x_model = last[0]
    v = Spy.formula(x_model, p[:2])
    if mode == 'sum':
        ramp = np.array([models.ref_eval('ramp', x, None, p[2:])
                         for x in x_model])
        v = v + ramp
    elif e_other is not None:
        q = np.array([models.ref_eval(e_other, x, pd.Timestamp(dd), p[2:],
                                      mode == 'mult')
                      for x, dd in zip(x_model, t.date)])
        v = v * q if mode == 'mult' else v + q
    ctx.check(obs.num_close(t.y, v, 1e-9, 1e-9 * obs.scale_of(v)),
              'value_is_model', 'forecast {} is not the model with the '
              'reported parameters {}', t.y.values[:4], v[:4])
    ctx.state(s.freq, mode, cache, start is not None, user_x is not None,
              'weight' in d, dup, scaled)

    # Built-in models against their formulas
    if user_x is not None or u.df.x.nunique() < 9:
        return
    l_e = [BUILTIN[i] for i in rng.choice(len(BUILTIN), 2, replace=False)]
    kw['l_model_trend'] = [models.get(e) for e in l_e]
    if l_s:
        l_e = [['*' if mode == 'mult' else '+', e, e_other] for e in l_e]
    r = obs.run(d, seed=case['seed'], **kw)
    d_e = {models.expr_name(e): e for e in l_e}
    for _, row in r['metadata'].iterrows():
        e = d_e.get(row['model'])
        if e is None or not row.is_fit:
            continue
        t = obs.fdata(r, model=row['model'])
        x = u.x_of(t.date)
        v = np.array([models.ref_eval(
            e, a, pd.Timestamp(b) if dated else None,
            np.asarray(row.params, float)) for a, b in zip(x, t.date)])
        ctx.check(obs.num_close(t.y, v, 1e-8, 1e-8 * obs.scale_of(v)),
                  'builtin_values', 'forecast of {} {}.. differs from its '
                  'formula with the reported parameters {}..', row['model'],
                  t.y.values[:4], v[:4])


def known():
    """Input with dates and a user x axis in another unit"""
    y = np.round(np.cumsum(np.cos(np.arange(40) * 2.3)) + 50, 3)
    d = pd.DataFrame(dict(date=pd.date_range('2018-01-05', periods=40,
                                             freq='W-FRI'), y=y))
    d['x'] = np.arange(40)  # in weeks
    spy = Spy('spy', True)
    obs.run(d, l_model_trend=[spy.model], l_model_season=[],
            l_model_naive=[], extrapolate_years=.1)
    x_fit = dict(zip(spy.l_call[0][1], spy.l_call[0][0]))
    x_out = dict(zip(spy.l_call[-1][1], spy.l_call[-1][0]))
    bad = [t for t in x_fit if t in x_out and x_fit[t] != x_out[t]]
    yield ('user_x_unit', len(bad) > 0,
           'x axis given by the user in weeks: {} of {} dates are given to '
           'the model with another x when extrapolating than when fitting'
           .format(len(bad), len(x_fit)))
