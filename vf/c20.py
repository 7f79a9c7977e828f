"""C20 - results are deterministic, independent of history and order.

Monitors: the same jobs (calls of the public functions from a given state of
the random generator) are run repeatedly, in shuffled order, after histories
of unrelated calls (incl. calls that fail), in fresh processes with other hash
seeds and working directories, and with permuted or repeated lists of
candidates and sources; an offline checker compares the recorded results.
"""
import json
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np
import pandas as pd

from vf import gen, models, obs, ref

PROPERTY = 'C20'
RULE = ('jobs: random series and options of forecasts, fits, intervals, '
        'naive models, outliers and automatic candidates; repeated in one '
        'process, after random histories, in 2 new processes per batch with '
        'random hash seeds and shuffled order, in one of them '
        'after jobs on twin series that share dates, length, start or values; candidates and sources '
        'permuted and repeated, with exact ties; non-trivial when recorded '
        'results were compared')
FLOORS = {'repeat': 100, 'history': 100, 'process': 80, 'permuted': 60,
          'duplicates': 40, 'sources': 20, 'candidates': 40, 'ties': 15,
          'after_twins': 40}
L_TWIN = ['values', 'freq', 'shift', 'gaps', 'order']
L_JOB = ['run', 'run', 'run', 'both', 'auto', 'multi', 'fit', 'models',
         'outliers', 'tie', 'calendar', 'init']


def cases(tier, seed):
    n = dict(quick=1, thorough=10)[tier]
    l = [dict(kind='process', seed=seed * 523 + i) for i in range(16 * n)]
    l += [dict(kind='history', seed=seed * 523 + i) for i in range(40 * n)]
    l += [dict(kind='permuted', seed=seed * 523 + i) for i in range(80 * n)]
    l += [dict(kind='sources', seed=seed * 523 + i) for i in range(24 * n)]
    return l


# ---- Jobs: description -> recorded result

def make_job(rng):
    k = L_JOB[rng.randint(len(L_JOB))]
    o = None
    dated = bool(rng.rand() < .8)
    if k == 'run':
        o = models.rand_options(rng, dated)
        o['extrapolate_years'] = min(o['extrapolate_years'], .5)
    return dict(job=k, seed=int(rng.randint(1 << 30)), dated=dated, opt=o)


def record(r):
    """Picklable record of a result"""
    if isinstance(r, dict):
        return {k: record(v) for k, v in r.items()}
    if isinstance(r, pd.DataFrame):
        d = r.drop(columns=[c for c in obs.L_VOLATILE if c in r.columns])
        if 'model' in d.columns:
            d = d.assign(model=d['model'].astype(str))
        return d
    if isinstance(r, (list, tuple)):
        return [record(v) for v in r]
    if hasattr(r, 'f_model'):
        return str(r)
    return r


def run_job(j):
    """Recorded result of a job, or of the exception it raised"""
    rng = gen.rng_of('c20job', j['seed'])
    try:
        return record(globals()['job_' + j['job']](j, rng))
    except Exception as e:
        return ['raised', type(e).__name__, str(e)[:200]]


def series(j, rng, *l, **kw):
    """Random series; or for a twin, one that shares some of its features"""
    s = gen.make_series(rng, *l, **kw)
    t = j.get('twin')
    if t == 'values':  # same dates, length, first, last value, sum
        s.y[1:-1] = s.y[1:-1][::-1].copy()
    elif t == 'freq' and s.freq is not None:  # same start, length, values
        k = 'W' if s.freq == 'D' else 'D'
        s.grid = [s.grid[0] + pd.Timedelta(7 * i if k == 'W' else i, 'D')
                  for i in range(s.n)]
    elif t == 'shift' and s.freq is not None:  # same values, length, steps
        s.grid = [d + pd.Timedelta(364, 'D') for d in s.grid]
    if s.n > 12 and s.freq in (None, 'D', 'W', 'H') and rng.rand() < .4:
        # twins: same first and last sample, number of samples
        s.keep = s.keep.copy()
        i = 3 + int(rng.randint(s.n - 7))
        s.keep[i + (t == 'gaps')] = False
    return s


def job_run(j, rng):
    s = series(j, rng, 'any' if j['dated'] else None)
    if j['dated'] and s.freq is None:
        s = series(j, rng, 'D')
    d = s.df()
    if rng.rand() < .4:
        d = ref.add_weights(rng, d)
    if rng.rand() < .3:
        d = ref.add_nulls(rng, d)
    return obs.run(d, seed=j['seed'], **models.kwargs(j['opt']))


def job_both(j, rng):
    """Many candidates, in sets"""
    s = series(j, rng, 'D', n=int(rng.randint(30, 80)))
    return obs.run(s.df(), seed=j['seed'], season_add_mult='both',
                   include_all_fits=True, extrapolate_years=.1,
                   l_model_trend=[models.get(e) for e in (
                       'linear', ['+', 'linear', 'ramp'], 'constant')],
                   l_model_season=[models.get(e) for e in (
                       'season_wday', 'null', 'season_wday_2')])


def job_auto(j, rng):
    s = series(j, rng, ['D', 'W', 'MS', 'Q'][rng.randint(4)],
                        n=int(rng.randint(20, 120)))
    return obs.run(s.df(), seed=j['seed'], include_all_fits=True,
                   season_add_mult=['add', 'both', 'auto'][rng.randint(3)],
                   extrapolate_years=.2)


def job_multi(j, rng):
    l = []
    for n in 'bca'[:1 + rng.randint(3)]:
        s = series(j, rng, ['D', 'W'][rng.randint(2)],
                            n=int(rng.randint(10, 50)))
        l.append(s.df().assign(source=n))
    return obs.run(pd.concat(l, ignore_index=True), seed=j['seed'],
                   extrapolate_years=.1, include_all_fits=True)


def job_fit(j, rng):
    from anticipy import forecast
    s = series(j, rng, 'D', n=int(rng.randint(20, 60)))
    df = forecast.normalize_df(s.df())
    m = models.get(['linear', 'constant', ['+', 'constant', 'ramp'], 'exp',
                    ['*', 'linear', 'season_wday'], 'sigmoid_step',
                    'season_fourier_yearly'][rng.randint(7)])
    np.random.seed(j['seed'] % 2 ** 32)
    d = forecast.fit_model(m, df, 'D', 'src')
    p = d['metadata'].params.iloc[0]
    out = [record(d['metadata']), record(d['optimize_info'])]
    if d['metadata'].is_fit.iloc[0]:
        out.append(forecast.extrapolate_model(
            m, p, df.date.min(), df.date.max(), 'D', .1))
    return out


def job_models(j, rng):
    """Values, initial values and bounds of a random expression"""
    e = models.rand_expr(rng, 2, True)
    m = models.get(e)
    s = series(j, rng, 'D', n=int(rng.randint(30, 90)), shape='noise')
    d = pd.DatetimeIndex(s.grid)
    x = np.array([gen.x_of_date(t, s.grid[0]) for t in s.grid])
    p = np.array(models.rand_params(e, rng, x))
    if j.get('twin') == 'order':  # same ends, other order in between
        d = d[[0] + list(range(len(d) - 2, 0, -1)) + [len(d) - 1]]
    np.random.seed(j['seed'] % 2 ** 32)
    out = [str(m), m.n_params]
    for mult in (False, True):
        out.append(np.asarray(m(x, d, p, is_mult=mult), float))
        out.append(np.asarray(m(x, d, p, is_mult=mult, **m.init_cache(x, d)),
                              float))
        out.append(np.asarray(m.f_init_params(x, s.y, d, mult), float))
    out.append([np.asarray(v, float) for v in m.f_bounds(x, s.y, d)])
    out.append(np.asarray(m.f_init_params(), float))
    for a in ((x, None, None), (x, None, d), (x, s.y, d)):
        for mult in (False, True):
            out.append(np.asarray(m.f_init_params(*a, mult), float))
    return out


def job_init(j, rng):
    """Initial values of all models, with and without data"""
    s = series(j, rng, 'D', n=int(rng.randint(30, 90)), shape='noise')
    d = pd.DatetimeIndex(s.grid)
    x = np.array([gen.x_of_date(t, s.grid[0]) for t in s.grid])
    np.random.seed(j['seed'] % 2 ** 32)
    out = []
    for e in sorted(models.REF):
        m = models.get(e)
        for a in ((), (x, None, None), (x, None, d), (x, s.y, d)):
            out.append(np.asarray(m.f_init_params(*a), float))
    return out


def job_outliers(j, rng):
    from anticipy import forecast, forecast_models
    s = series(j, rng, 'D', n=int(rng.randint(20, 80)),
                        shape=['spikes', 'steps', 'noise'][rng.randint(3)])
    df = forecast.normalize_df(s.df())
    return list(forecast_models.get_model_outliers(df))


def job_tie(j, rng):
    """Candidates with equal scores"""
    n = int(rng.randint(12, 40))
    d = series(j, rng, 'D', n=n, shape='noise').df()
    m = models.fm()
    l = [m.get_model_dummy('d{}'.format(i), [d.date[3], d.date[7 + k]])
         for i, k in enumerate([0, 0, 1])]
    l = [models.get('constant') + t for t in l]
    return obs.run(d, seed=j['seed'], include_all_fits=True,
                   l_model_trend=l, l_model_season=[], l_model_naive=[],
                   season_add_mult='both')


def job_calendar(j, rng):
    m = models.fm()
    k = ['uk', 'us', 'ita'][rng.randint(3)]
    mod = getattr(m, 'model_calendar_' + k)
    y = int(rng.randint(1990, 2040))
    d = pd.date_range('{}-{:02d}-05'.format(y, rng.randint(1, 13)),
                      periods=int(rng.randint(3, 900)))
    if rng.rand() < .3:
        d = d.tz_localize('UTC')
    return [np.asarray(mod(np.arange(len(d)), d, np.ones(mod.n_params)),
                       float)]


# ---- Comparison of records

def diff(a, b, rtol=1e-6):
    if isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame):
        # numbers of iterations may depend on the last bit of a value
        return obs.table_diff(a, b, rtol=rtol, ignore=(
            'iterations', 'jac_evals', 'optimality', 'status', 'message')
            if 'jac_evals' in a.columns else ())
    if type(a) is not type(b):
        return '{} instead of {}'.format(str(b)[:300], str(a)[:300])
    if isinstance(a, dict):
        if list(a) != list(b):
            return 'keys {} vs {}'.format(list(a), list(b))
        for k in a:
            d = diff(a[k], b[k], rtol)
            if d:
                return '{}: {}'.format(k, d)
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return 'lengths {} vs {}'.format(len(a), len(b))
        for i, (p, q) in enumerate(zip(a, b)):
            d = diff(p, q, rtol)
            if d:
                return '[{}] {}'.format(i, d)
        return None
    if isinstance(a, pd.Series):
        return None if a.index.equals(b.index) and obs.num_close(
            a.values, b.values, rtol) else 'series differ'
    if isinstance(a, np.ndarray):
        return None if a.shape == b.shape and np.allclose(
            a.astype(float), b.astype(float), rtol=rtol, atol=1e-9,
            equal_nan=True) else 'arrays {} vs {}'.format(a[:8], b[:8])
    if isinstance(a, float) and a != a:
        return None if b != b else 'nan vs {}'.format(b)
    return None if a == b else '{} vs {}'.format(a, b)


# ---- Histories

def poison(rng):
    """Unrelated calls, some of which fail"""
    from anticipy import forecast, forecast_models as m
    for _ in range(1 + rng.randint(4)):
        u = rng.randint(9)
        try:
            if u == 0:
                run_job(make_job(rng))
            elif u == 1:  # failing forecasts
                forecast.run_forecast(pd.DataFrame({'z': [1, 2]}))
            elif u == 2:
                forecast.run_forecast(
                    pd.DataFrame({'date': ['2020-01-01'] * 2 + [None],
                                  'y': [1., 2., 3.]}))
            elif u == 3:  # models with names of others, or of the library
                a = m.ForecastModel('linear', 2, lambda x, d, p, is_mult=False,
                                    **kw: p[0] + 0 * x)
                b = a + m.model_season_wday + a
                b(np.arange(9), pd.date_range('2020-01-01', periods=9),
                  np.ones(10))
                b.init_cache(np.arange(9), pd.date_range(
                    '2020-01-01', periods=9))
            elif u == 4:  # fixed, simplified models
                f = m.fix_params_fmodel(m.model_linear, [np.nan, 3.])
                f(np.arange(5), None, [2.])
                m.simplify_model(m.model_linear, np.arange(5.),
                                 np.arange(5.), None)
            elif u == 5:  # calendars over other windows
                for c in (m.model_calendar_uk, m.model_calendar_us,
                          m.model_calendar_ita):
                    t = pd.date_range('{}-06-05'.format(rng.randint(
                        1975, 2080)), periods=int(rng.randint(1, 50)))
                    c(np.arange(len(t)), t, np.ones(c.n_params))
            elif u == 6:
                m.get_model_from_datelist('a', [])
            elif u == 7:  # options that fail half way
                d = gen.make_series(rng, 'D', n=30).df()
                bad = m.ForecastModel('bad', 1, lambda *a, **k: 1 / 0)
                forecast.run_forecast(d, l_model_trend=[bad])
            else:
                d = gen.make_series(rng, 'W', n=30).df()
                forecast.run_forecast(d, season_add_mult='nothing',
                                      extrapolate_years=-1)
        except Exception:
            pass


# ---- Cases

def run_case(case, ctx):
    rng = gen.rng_of('C20', case['kind'], case['seed'])
    globals()['case_' + case['kind']](case, ctx, rng)


def case_history(case, ctx, rng):
    l = [make_job(rng) for _ in range(4)]
    base = [run_job(j) for j in l]
    for j, b in zip(l, base):
        if isinstance(b, list) and b and isinstance(b[0], str) and \
                b[0] == 'raised':
            ctx.hit('raised')
        d = diff(b, run_job(j))
        ctx.check(d is None, 'repeat', 'job {} differs when repeated: {}',
                  json.dumps(j), d)
        ctx.state(j['job'])
    for i in rng.permutation(len(l)):
        poison(rng)
        d = diff(base[i], run_job(l[i]))
        ctx.check(d is None, 'history', 'job {} differs after other calls: '
                  '{}', json.dumps(l[i]), d)


def case_process(case, ctx, rng):
    l = [make_job(rng) for _ in range(6)]
    base = [run_job(j) for j in l]
    with tempfile.TemporaryDirectory() as tmp:
        l_p = []
        for k in range(2):
            p = [int(i) for i in rng.permutation(len(l))]
            f_in = os.path.join(tmp, 'in{}'.format(k))
            f_out = os.path.join(tmp, 'out{}'.format(k))
            l_in, l_pos = [], []
            for i in p:
                if k == 0:  # after twins of the job
                    for t in rng.permutation(L_TWIN)[:2]:
                        l_in.append(dict(l[i], twin=str(t)))
                l_pos.append(len(l_in))
                l_in.append(l[i])
            with open(f_in, 'w') as f:
                json.dump(l_in, f)
            env = dict(os.environ, PYTHONHASHSEED=str(
                rng.randint(1, 1 << 31)))
            if k:
                env['TZ'] = 'America/New_York'
                env['LC_ALL'] = 'C'
            q = subprocess.Popen(
                [sys.executable, '-W', 'ignore', '-m', 'vf.c20', f_in, f_out],
                env=env, cwd=tmp, stdout=subprocess.DEVNULL,
                stderr=subprocess.PIPE)
            l_p.append((q, p, l_pos, f_out, env['PYTHONHASHSEED']))
        for q, p, l_pos, f_out, hs in l_p:
            err = q.communicate()[1]
            if q.returncode != 0:
                raise RuntimeError(
                    'worker failed: {}'.format(err.decode()[-1500:]))
            with open(f_out, 'rb') as f:
                res = pickle.load(f)
            for i, pos in zip(p, l_pos):
                d = diff(base[i], res[pos])
                ctx.hit('after_twins', int(pos > 0 and len(res) > len(p)))
                ctx.check(d is None, 'process', 'job {} differs in another '
                          'process, hash seed {}: {}', json.dumps(l[i]), hs,
                          d)


def worker(f_in, f_out):
    from vf.core import _quiet
    _quiet()
    with open(f_in) as f:
        l = json.load(f)
    with open(f_out, 'wb') as f:
        pickle.dump([run_job(j) for j in l], f)


def by_key(t):
    cols = [c for c in ('source', 'model', 'date', 'x') if c in t.columns]
    t = t.assign(model=t['model'].astype(str)) if 'model' in t.columns else t
    if 'y' in t.columns:
        cols.append('y')
    return t.sort_values(cols, kind='stable').reset_index(drop=True)


def same_set(a, b, ctx, mon, what, rtol=1e-5):
    """The same rows, in any order, random intervals aside"""
    for k in ('data', 'metadata', 'forecast'):
        x, y = by_key(record(a[k])), by_key(record(b[k]))
        ign = [c for c in x.columns if c.startswith('q') and
               c[1:].isdigit()]
        d = obs.table_diff(x.drop(columns=ign), y.drop(
            columns=[c for c in ign if c in y.columns]), rtol=rtol,
            atol_rel=1e-6)
        ctx.check(d is None, mon, '{}: table {}: {}', what, k, d)


def case_permuted(case, ctx, rng):
    """Permuted and repeated lists of candidates, deterministic models"""
    m = models.fm()
    dated = rng.rand() < .7
    s = gen.make_series(rng, ['D', 'D', 'W'][rng.randint(3)] if dated
                        else None, n=int(rng.randint(25, 70)),
                        gaps=rng.rand() < .2)
    d = s.df()
    if rng.rand() < .4:
        d = ref.add_weights(rng, d)
    fixed = m.fix_params_fmodel(m.model_linear, [np.nan, float(d.y.mean())])
    tr = [m.model_linear, m.model_linear_nondec,
          m.model_linear + m.model_ramp, fixed]
    tr = [tr[i] for i in rng.permutation(4)[:2 + rng.randint(3)]]
    na = [m.model_naive]
    if dated and s.freq == 'D':
        na.append(m.model_snaive_wday)
    add_mult = ['add', 'both', 'mult', 'auto'][rng.randint(4)]
    se = []
    tie = rng.rand() < .35 and dated
    if dated and rng.rand() < .6:
        # dummies: initial values are random, fits are linear
        d2 = [d.date[2], d.date[9]]
        se = [m.model_null, m.get_model_dummy('p', d2),
              m.get_model_dummy('r', [d.date[12]])]
        if tie:  # same samples under another name
            se.append(m.get_model_dummy('q', d2))
        add_mult = 'add'
    kw = dict(l_model_trend=tr, l_model_season=se, l_model_naive=na,
              season_add_mult=add_mult, include_all_fits=True,
              extrapolate_years=.05)
    base = obs.run(d, seed=1, **kw)
    md = base['metadata']
    sc = np.sort(md.loc[md.is_fit.astype(bool), 'aic_c'].values)
    n_cand = len(md)
    key = lambda t: sorted(map(str, t['model']))
    l_best = list(md.loc[md.is_best_fit, 'model'])
    # candidates within rounding of the best score
    close = set(md.loc[md.is_fit.astype(bool) & (
        md.aic_c <= sc[0] + 1e-4), 'model'].astype(str)) if len(sc) else set()
    for k in range(3):
        what = 'permuted'
        kw2 = dict(kw)
        for a in ('l_model_trend', 'l_model_season', 'l_model_naive'):
            v = kw[a]
            v = [v[i] for i in rng.permutation(len(v))]
            if k == 2:
                what = 'repeated'
                v = v + [v[i] for i in rng.randint(0, len(v), 2)] if v else v
            kw2[a] = v
        r = obs.run(d, seed=1, **kw2)
        m2 = r['metadata']
        mon = 'duplicates' if k == 2 else 'candidates'
        ctx.check(key(m2) == key(md), mon, '{} candidates: {} instead of {}',
                  what, key(m2), key(md))
        b2 = list(m2.loc[m2.is_best_fit, 'model'])
        if len(close) == 1:
            ctx.check(l_best == b2, 'permuted', '{} candidates: best is {} '
                      'instead of {}', what, b2, l_best)
            same_set(base, r, ctx, 'permuted', what + ' candidates')
        else:
            # exact ties: the same one of the candidates
            ctx.hit('ties')
            ctx.check(len(b2) == len(l_best) == 1 and b2[0] in close and
                      (not tie or l_best == b2), 'permuted', '{} candidates: '
                      'best is {} instead of {}', what, b2, l_best)
        # only the best is reported, and is the same
        r1 = obs.run(d, seed=1, **dict(kw2, include_all_fits=False))
        ctx.check(list(r1['metadata'].model) == b2, 'permuted', 'best is {} '
                  'without all fits instead of {}', list(r1['metadata'].model),
                  b2)
    ctx.state(dated, add_mult, n_cand, len(close))


def case_sources(case, ctx, rng):
    """Order in which sources are listed"""
    m = models.fm()
    l = []
    for n in ['s2', 'S1', '10', '9'][:2 + rng.randint(3)]:
        s = gen.make_series(rng, ['D', 'W', 'MS'][rng.randint(3)],
                            n=int(rng.randint(8, 50)))
        l.append(s.df().assign(source=n))
    kw = dict(l_model_trend=[m.model_linear, m.model_linear + m.model_ramp],
              l_model_season=[], include_all_fits=bool(rng.randint(2)),
              extrapolate_years=.1)
    base = obs.run(pd.concat(l, ignore_index=True), seed=2, **kw)
    for k in range(2):
        l2 = [l[i] for i in rng.permutation(len(l))]
        d = pd.concat(l2, ignore_index=True)
        if k:
            d = d.iloc[rng.permutation(len(d))].reset_index(drop=True)
        r = obs.run(d, seed=2, **kw)
        same_set(base, r, ctx, 'sources', 'sources in order {}'.format(
            [t.source.iloc[0] for t in l2]))


if __name__ == '__main__':
    worker(sys.argv[1], sys.argv[2])
