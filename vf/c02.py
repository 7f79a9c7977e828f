"""C02 - inputs passed by the caller are never modified.

Monitor: deep snapshots (content hashes, identities, attributes of models) of
every argument, and of all models of the library, around each call of the
public functions, with calls that succeed and calls that fail; every call is
repeated with the same objects and must see the original data.
"""
import os
import tempfile

import numpy as np
import pandas as pd

from vf import gen, models, obs, ref

PROPERTY = 'C02'
RULE = ('random series and options for each of the public operations, incl. '
        'calls that fail; non-trivial when arguments were hashed before and '
        'after a call that ran')
FLOORS = {'unchanged': 800, 'repeat_same': 100, 'library_models': 200,
          'failed_calls': 20, 'op_run': 40, 'op_fit': 5, 'op_pi': 5,
          'op_plot': 3, 'op_outliers': 5, 'op_interpolate': 5,
          'op_models': 5, 'op_run_l': 5}

L_OP = ['run', 'run', 'run', 'run', 'single', 'run_l', 'fit', 'extrapolate',
        'pi', 'models', 'lists', 'normalize', 'outliers', 'interpolate',
        'detect', 'fix', 'plot', 'aggregate', 'fail', 'direct_naive']


def cases(tier, seed):
    n = dict(quick=14, thorough=260)[tier]
    return [dict(op=op, seed=seed * 9001 + i, k=k)
            for i in range(n) for k, op in enumerate(L_OP)
            if op != 'plot' or i % 3 == 0]


def snap_model(m):
    d = {}
    for k in ('name', 'n_params', 'f_model', 'f_init_params', 'f_bounds',
              'l_f_validate_input', 'l_cache_vars', 'dict_f_cache'):
        v = getattr(m, k)
        if isinstance(v, list):
            d[k] = [id(t) if callable(t) else repr(t) for t in v]
        elif isinstance(v, dict):
            d[k] = sorted((str(a), id(b)) for a, b in v.items())
        elif isinstance(v, np.ndarray):
            d[k] = v.tobytes()
        else:
            d[k] = id(v) if callable(v) else repr(v)
    return d


def snap(v):
    fm = models.fm()
    if isinstance(v, (pd.DataFrame, pd.Series)):
        cols = list(v.columns) if isinstance(v, pd.DataFrame) else v.name
        obj = []
        if isinstance(v, pd.DataFrame):
            for c in v.columns:
                if v[c].dtype == object:
                    obj.append([repr(t) for t in v[c]])
        if isinstance(v, pd.DataFrame) and any(
                v[c].dtype == object for c in v.columns):
            w = v[[c for c in v.columns if v[c].dtype != object]]
        else:
            w = v
        return ('df', id(v), repr(cols), obs.df_hash(w), obj,
                v.index.tolist()[:3], len(v), getattr(v.index, 'freq', None))
    if isinstance(v, np.ndarray):
        return ('arr', v.tobytes(), v.shape, str(v.dtype))
    if isinstance(v, pd.Index):
        return ('idx', list(v), v.name, str(v.dtype))
    if isinstance(v, fm.ForecastModel):
        return ('model', id(v), snap_model(v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [snap(t) for t in v])
    if isinstance(v, dict):
        return ('dict', [(k, snap(t)) for k, t in v.items()])
    if hasattr(v, 'df_y'):  # forecast input
        return ('obj', [(k, snap(t)) for k, t in sorted(vars(v).items())])
    return repr(v)


def snap_library():
    from anticipy import model_utils
    fm = models.fm()
    d = {k: snap(v) for k, v in vars(fm).items()
         if isinstance(v, fm.ForecastModel)}
    d['units'] = repr(vars(model_utils).get('dict_freq_units_per_year'))
    return d


def same_result(a, b):
    """None if two results of the same call are equal"""
    if isinstance(a, dict) and 'forecast' in a:
        return obs.dict_diff(a, b, rtol=obs.NOISE)
    if isinstance(a, pd.DataFrame):
        return obs.table_diff(a, b, rtol=obs.NOISE)
    if isinstance(a, (pd.Series, pd.Index)):
        return None if a.equals(b) else 'series differ'
    if isinstance(a, np.ndarray):
        return None if np.array_equal(a, b, equal_nan=a.dtype.kind == 'f') \
            else 'arrays differ: {} {}'.format(a, b)
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return 'lengths differ'
        for p, q in zip(a, b):
            d = same_result(p, q)
            if d:
                return d
        return None
    if isinstance(a, dict):
        for k in a:
            if k == 'metadata' or k == 'optimize_info':
                continue
            d = same_result(a[k], b[k])
            if d:
                return d
        return None
    if isinstance(a, (float, np.floating)) and a != a:
        return None if b != b else 'nan'
    if hasattr(a, 'f_model'):
        return None if a.name == b.name else 'models differ'
    return None if a == b else '{} vs {}'.format(a, b)


def watch(ctx, name, f, args, kwargs, may_fail=False, repeat=True, seed=0):
    """Call f twice, with monitors on its arguments"""
    l_res = []
    for k in range(2 if repeat else 1):
        before = snap((args, kwargs))
        lib = snap_library()
        np.random.seed(seed)
        res = exc = None
        try:
            res = f(*args, **kwargs)
        except Exception as e:
            if not may_fail:
                raise
            exc = repr(e)
            ctx.hit('failed_calls')
        after = snap((args, kwargs))
        if before != after:
            l = [i for i, (p, q) in enumerate(zip(before[1][0][1],
                                                  after[1][0][1])) if p != q]
            l += [p for p, q in zip(before[1][1][1], after[1][1][1])
                  if p != q]
            ctx.check(False, 'unchanged', 'arguments {} of {} were '
                      'modified{}', str(l)[:1500], name,
                      ' by a failed call' if exc else '')
        ctx.hit('unchanged', len(args) + len(kwargs))
        ctx.check(lib == snap_library(), 'library_models',
                  'models of the library were modified by {}', name)
        l_res.append((res, exc))
    if repeat:
        (a, ea), (b, eb) = l_res
        ctx.check((ea is None) == (eb is None), 'repeat_same',
                  'second call of {}: {} vs {}', name, ea, eb)
        if ea is None:
            d = same_result(a, b)
            ctx.check(d is None, 'repeat_same', 'second call of {} with the '
                      'same objects differs: {}', name, d)
    return l_res[0][0]


def make_df(rng, freq='any', **kw):
    s = gen.make_series(rng, freq, gaps=rng.rand() < .3, **kw)
    d = s.df()
    if rng.rand() < .6:
        d = ref.add_weights(rng, d)
    if rng.rand() < .4:
        d = ref.add_nulls(rng, d)
    return s, d


def shuffle_cols(rng, d):
    d = d.sample(frac=1., random_state=rng.randint(1000))
    return d[[d.columns[i] for i in rng.permutation(len(d.columns))]]


def run_case(case, ctx):
    from anticipy import forecast, forecast_models, model_utils, forecast_plot
    op = case['op']
    rng = gen.rng_of('c02', op, case['k'], case['seed'])
    seed = int(rng.randint(10 ** 6))
    ctx.state(op)
    ctx.hit('op_' + op)

    def w(name, f, *args, **kwargs):
        return watch(ctx, name, f, args, kwargs, seed=seed)

    s, d = make_df(rng)
    dated = s.freq is not None
    opt = models.rand_options(rng, dated)
    if not (s.freq in ('D', 'W')):
        opt.pop('season', None)
        opt.pop('calendar', None)
    kw = models.kwargs(opt)

    if op == 'run':
        kw['simplify_output'] = bool(rng.rand() < .5)
        if rng.rand() < .3:
            kw['date_start_actuals'] = s.grid[2]
        if rng.rand() < .3 and not d.y.isnull().any():
            kw['find_outliers'] = True
        if rng.rand() < .3:
            kw['l_season_weekly'] = [models.get('season_wday'),
                                     models.get('null')]
            kw['l_season_yearly'] = [models.get('season_fourier_yearly')]
        v = rng.randint(6)
        if v == 0:
            d = shuffle_cols(rng, d)
        elif v == 1:
            d = d.rename(columns=dict(y='value', date='day', x='day'))
            kw['col_name_y'] = 'value'
            kw['col_name_date' if dated else 'col_name_x'] = 'day'
        elif v == 2:
            d = d.set_index('date' if dated else 'x')
        elif v == 3:
            _, d2 = make_df(rng, s.freq, n=20)
            d = pd.concat([d.assign(source='a'), d2.assign(source='b')],
                          ignore_index=True)
            d = shuffle_cols(rng, d)
        elif v == 4 and dated:
            d['date'] = d.date.dt.strftime('%Y-%m-%d %H:%M')
        elif v == 5:
            d = d.set_index('date' if dated else 'x').y
        w('run_forecast', forecast.run_forecast, d, **kw)

    elif op == 'single':
        dn = forecast.normalize_df(d)
        kw['pi_widening_freq'] = kw.get('pi_widening_freq', 'Y')
        w('run_forecast_single', forecast.run_forecast_single, dn, **kw)

    elif op == 'run_l':
        l = []
        for i in range(1 + rng.randint(3)):
            _, d2 = make_df(rng, s.freq)
            l.append(forecast.ForecastInput(
                's{}'.format(i), d2,
                [[models.get('linear')], [models.get('constant'),
                                          models.get('linear')],
                 None][rng.randint(3)]))
        w('run_l_forecast', forecast.run_l_forecast, l,
          extrapolate_years=.1)

    elif op == 'fit':
        dn = forecast.normalize_df(d)
        e = models.L_TREND[rng.randint(6)]
        m = models.get(e)
        w('fit_model', forecast.fit_model, m, dn, freq=s.label)
        da = model_utils.interpolate_df(dn, interpolate_y=False)
        w('fit_model', forecast.fit_model, models.get('naive'), dn,
          s.label, df_actuals=da)

    elif op == 'extrapolate':
        if not dated:
            a, b = int(s.grid[0]), int(s.grid[-1])
        else:
            a, b = pd.Timestamp(s.grid[0]), pd.Timestamp(s.grid[-1])
        p = rng.uniform(0, 1, 2)
        w('extrapolate_model', forecast.extrapolate_model,
          models.get('linear'), p, a, b, s.label, .3)
        dn = forecast.normalize_df(d).drop(columns='weight', errors='ignore')
        da = model_utils.interpolate_df(dn, interpolate_y=False)
        m = 'snaive_wday' if dated and rng.rand() < .5 else 'naive'
        w('extrapolate_model', forecast.extrapolate_model, models.get(m),
          np.array([]), a, b, s.label, .3,
          x_start_actuals=float(dn.x.min()), df_actuals=da)

    elif op == 'pi':
        r = obs.run(d, seed=seed, **dict(
            kw, include_all_fits=bool(rng.rand() < .5)))
        t = r['data'].drop(columns='model_obj', errors='ignore')
        if rng.rand() < .4:
            t = t.drop(columns='weight')
        if rng.rand() < .4 and t.loc[~t.is_actuals].model.nunique() == 1:
            t = t.drop(columns=['is_best_fit'])
        w('get_pi', forecast.get_pi, t, n_sims=20)

    elif op == 'models':
        # composition, evaluation, initial values, bounds, cache
        l_e = [models.rand_expr(rng, 1, True) for _ in range(2)]
        a, b = models.get(l_e[0]), models.get(l_e[1])
        s = gen.Series('D', gen.grid_start('D', rng), 400, 'noise', rng)
        x = np.arange(400.) + 3
        y = np.abs(s.y) + 1
        date = pd.DatetimeIndex(s.grid)
        for f in ('+', '*'):
            m = w('composition ' + f,
                  (lambda p, q: p + q) if f == '+' else
                  (lambda p, q: p * q), a, b)
            p = np.array(models.rand_params([f] + l_e, rng, x))
            w('model call', m, x, date, p)
            w('model call mult', m, x, date, p, is_mult=True)
            w('init_params', m.f_init_params, x, y, date)
            w('bounds', m.f_bounds, x, y, date)
            w('init_cache', m.init_cache, x, date)
            w('validate_input', m.validate_input, x, y, date)
            c = m.init_cache(x, date)
            w('model call cached', m, x, date, p, **c)
            w('simplify_model', forecast_models.simplify_model, m, x, y,
              date)
        l = [[s.grid[3], s.grid[5]], [s.grid[9]]]
        w('get_model_from_datelist', forecast_models.get_model_from_datelist,
          'dl', *l)
        l = [s.grid[3], s.grid[5]]
        w('get_model_dummy', lambda n, v: forecast_models.get_model_dummy(
            n, v).name, 'dd', l)
        l = [forecast_models.CalendarBankHolUK(),
             forecast_models.CalendarChristmasUK()]
        w('get_model_from_calendars', lambda v:
          forecast_models.get_model_from_calendars(v, 'cc').name, l)

    elif op == 'lists':
        l_t = [models.get(e) for e in ['linear', 'constant', 'linear']]
        l_s = [models.get(e) for e in ['season_wday', 'null']]
        for am in ('add', 'mult', 'both'):
            w('get_list_model', forecast.get_list_model, l_t, l_s, am)
        w('auto_season', forecast_models.get_l_model_auto_season,
          pd.Series(pd.to_datetime(gen.dates('D', gen.grid_start('D', rng),
                                             700))).sample(
              frac=1., random_state=1), l_season_weekly=l_s)
        w('to_str', forecast.to_str_function_list, l_t)

    elif op == 'normalize':
        d['extra'] = 1
        d = shuffle_cols(rng, d)
        if rng.rand() < .5:
            d['source'] = rng.choice(['b', 'a'], len(d))
        w('normalize_df', forecast.normalize_df, d)
        w('get_df_actuals_clean', forecast.get_df_actuals_clean,
          forecast.normalize_df(d), 's', 'sl')

    elif op == 'outliers':
        d = d.assign(y=gen.values('spikes', len(d), rng))
        dn = forecast.normalize_df(d)
        w('get_model_outliers', forecast_models.get_model_outliers, dn)

    elif op == 'interpolate':
        dn = forecast.normalize_df(make_df(rng, s.freq)[1])
        w('interpolate_df', model_utils.interpolate_df, dn,
          include_mask=bool(rng.rand() < .5),
          interpolate_y=bool(rng.rand() < .5))

    elif op == 'detect':
        s, d = make_df(rng, ['D', 'W', 'MS', 'Q'][rng.randint(4)])
        dn = forecast.normalize_df(d)
        w('detect_freq', model_utils.detect_freq, d.date)
        w('detect_freq', model_utils.detect_freq, d)
        w('detect_freq', model_utils.detect_freq, pd.DatetimeIndex(d.date))
        w('normalized x', model_utils.get_normalized_x_from_date, d.date)
        dn['y'] = dn.y.abs() + 1
        w('is_multiplicative', model_utils.is_multiplicative, dn)
        sc = pd.Series(rng.normal(0, 1, 5), index=list('abcde'))
        w('best key', model_utils.get_s_aic_c_best_result_key, sc)
        w('scaling', model_utils.apply_a_x_scaling, np.arange(5.),
          models.get('sigmoid'))

    elif op == 'fix':
        m = models.get(['+', 'linear', 'ramp'])
        p = [1., np.nan, 5., np.nan]
        if rng.rand() < .5:
            p = np.array(p)
        f = w('fix_params_fmodel', forecast_models.fix_params_fmodel, m, p)
        x = np.arange(30.)
        y = s.y[:30] if len(s.y) >= 30 else np.arange(30.) + 1
        q = np.array([2., 3.])
        w('fixed call', f, x, None, q)
        w('fixed call list', f, x, None, [2., 3.])
        w('fixed init', f.f_init_params, x, y)
        w('fixed bounds', f.f_bounds, x, y)
        pp = [1., 2.]
        g = w('get_fixed_model', forecast_models.get_fixed_model,
              models.get('linear'), pp)
        w('fixed call', g, x, None, q[:0])
        ctx.check(pp == [1., 2.], 'unchanged', 'fixed values modified')

    elif op == 'plot':
        kw['include_all_fits'] = True
        d2 = pd.concat([d.assign(source='a'), d.assign(source='b')])
        r = obs.run(d2 if rng.rand() < .5 else d, seed=seed, **kw)
        t = r['forecast']
        with tempfile.TemporaryDirectory() as folder:
            for out in ('html', 'png'):
                watch(ctx, 'plot', forecast_plot.plot_forecast,
                      (t, out, os.path.join(folder, 'p')), {}, repeat=False)
            td = r['data'].drop(columns='model_obj', errors='ignore')
            watch(ctx, 'plot', forecast_plot.plot_forecast,
                  (td, 'html', os.path.join(folder, 'p')), {}, repeat=False)

    elif op == 'aggregate':
        l = [obs.run(make_df(rng, s.freq)[1], seed=seed, source_id=str(i),
                     l_model_trend=[models.get('linear')])
             for i in range(3)]
        w('aggregate', forecast.aggregate_forecast_dict_results, l)

    elif op == 'direct_naive':
        if not dated:
            s, d = make_df(rng, 'D')
        dn = forecast.normalize_df(d).drop(columns='weight', errors='ignore')
        da = model_utils.interpolate_df(dn, interpolate_y=False)
        date = pd.DatetimeIndex(da.date)
        x = da.x.values.astype(float)
        for n in ('naive', 'snaive_wday'):
            w(n, models.get(n), x, date, [], df_actuals=da)

    elif op == 'fail':
        fm = models.fm()

        def boom(*a, **k):
            if rng2.rand() < .3:
                raise RuntimeError('model failed')
            return np.zeros(len(a[0]))

        rng2 = np.random.RandomState(seed)
        m = fm.ForecastModel('zz_boom', 1, boom)
        l_bad = [
            ('run', forecast.run_forecast, (d,),
             dict(l_model_trend=[models.get('linear'), m])),
            ('run bad quantile', forecast.run_forecast, (d,),
             dict(pi_q1=200, extrapolate_years=.1)),
            ('run without y', forecast.run_forecast,
             (d.rename(columns=dict(y='v')),), {}),
            ('run bad text', forecast.run_forecast,
             (d.assign(y=['a'] * len(d)),), {}),
            ('run bad model', forecast.run_forecast, (d,),
             dict(l_model_trend=['nothing'])),
            ('run duplicates', forecast.run_forecast,
             (pd.concat([d, d.iloc[:3]]),), dict(find_outliers=True)),
            ('fix', fm.fix_params_fmodel, (models.get('linear'), [1.]), {}),
            ('fixed', fm.get_fixed_model, (models.get('linear'), [1.]), {}),
            ('naive', models.get('naive'),
             (np.arange(3.), None, np.array([])), {}),
        ]
        for name, f, args, kwargs in l_bad:
            watch(ctx, name, f, args, kwargs, may_fail=True, repeat=False,
                  seed=seed)
    else:
        raise ValueError(op)
