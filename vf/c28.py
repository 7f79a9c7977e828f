"""C28 - concurrent use gives the same results as use in sequence.

Monitors: the same jobs in 8 threads, on shared tables and models, with
forced thread switches and delays injected between lines of the library; in
forked processes; results recorded by each thread, compared offline with
those of a sequential run, and shared tables sampled during the run.
"""
import os
import pickle
import random
import sys
import threading
import time

import numpy as np
import pandas as pd

from vf import gen, models, obs

PROPERTY = 'C28'
TECHNIQUE = ('runtime monitoring: concurrent stress with injected delays, '
             'recorded results compared with sequential ones')
RULE = ('jobs: forecasts of dated and numeric series, 1-3 sources, weights, '
        'null values, gaps, outliers, automatic and given candidates with '
        'unique optima, fits, naive models, intervals, outliers, calendars; '
        'run by 8 threads in different orders on shared tables and models, '
        'with delays injected at lines of the library, and by forked '
        'processes; non-trivial when results of concurrent jobs were '
        'compared')
FLOORS = {'threads': 600, 'shared': 200, 'forked': 40, 'delays': 3000,
          'overlaps': 300}
N_THREAD = 8
# models with a unique optimum, whatever the initial values are
L_E = ['linear', 'constant', 'linear_nondec', ['+', 'linear', 'season_wday'],
       ['+', 'linear', 'season_month'],
       ['+', 'linear', 'season_fourier_yearly'],
       ['+', 'constant', 'season_wday_2'], ['+', 'linear', 'season_wday_2']]


def cases(tier, seed):
    n = dict(quick=1, thorough=12)[tier]
    l = [dict(kind='threads', seed=seed * 4159 + i) for i in range(24 * n)]
    l += [dict(kind='fork', seed=seed * 4159 + i) for i in range(8 * n)]
    return l


class Job:
    """Call of the library with fixed arguments, shared by all threads"""

    def __init__(self, rng):
        from anticipy import forecast, forecast_models as fm, model_utils
        k = ['run', 'run', 'run', 'auto', 'multi', 'fit', 'model', 'util',
             'outliers', 'pi'][rng.randint(10)]
        self.kind = k
        freq = [None, 'D', 'D', 'D', 'W', 'MS', 'H'][rng.randint(7)]
        if k in ('auto', 'model'):
            freq = ['D', 'W', 'D'][rng.randint(3)]
        n = int(rng.randint(15, 90))
        if freq == 'W' and rng.rand() < .6:
            n = int(rng.randint(115, 130))  # all months twice
        if freq == 'H':
            n = int(rng.randint(80, 120))  # several days
        s = gen.make_series(rng, freq, n=n, gaps=rng.rand() < .3)
        d = s.df()
        if rng.rand() < .4:
            d['weight'] = (rng.rand(len(d)) > .15) * 1.
        if rng.rand() < .3:
            d.loc[d.index[rng.randint(len(d))], 'y'] = np.nan
        self.df = d
        ok = [e for e in L_E if freq is not None or
              not models.needs_date(e)]
        if freq != 'D':
            ok = [e for e in ok if 'wday' not in str(e)]
        if freq != 'W' or len(d) < 100:
            # parameters not defined by the data keep random values
            ok = [e for e in ok if 'month' not in str(e) and
                  'yearly' not in str(e)]
        if k in ('run', 'multi', 'pi'):
            l_m = [models.get(ok[i]) for i in rng.choice(
                len(ok), min(len(ok), 1 + rng.randint(3)), replace=False)]
            kw = dict(l_model_trend=l_m, l_model_season=[],
                      extrapolate_years=.1, include_all_fits=True,
                      simplify_output=False,
                      use_cache=bool(rng.rand() < .7),
                      find_outliers=bool(rng.rand() < .2) and
                      freq in ('D', None))
            if rng.rand() < .3:
                kw['season_add_mult'] = 'auto' if freq else 'add'
            if k == 'multi':
                self.df = pd.concat(
                    [d.assign(source='a'), d.assign(
                        y=d.y * 2. + 1., source='b')], ignore_index=True)
            if k == 'pi':
                t = forecast.run_forecast(d, **kw)['data']
                self.df = t
                self.f = lambda: forecast.get_pi(self.df, n_sims=50)
            else:
                self.f = lambda: forecast.run_forecast(self.df, **kw)
        elif k == 'auto':
            kw = dict(extrapolate_years=.1, simplify_output=False,
                      season_add_mult=['add', 'auto'][rng.randint(2)])
            self.f = lambda: forecast.run_forecast(self.df, **kw)
        elif k == 'fit':
            self.df = forecast.normalize_df(d)
            m = models.get(ok[rng.randint(len(ok))])
            lab = freq
            self.f = lambda: forecast.fit_model(m, self.df, lab)
        elif k == 'model':
            m = models.get([['+', 'ramp', 'season_month'],
                            ['*', 'linear', 'season_fourier_yearly'],
                            'season_wday', 'calendar_ita'][rng.randint(4)])
            self.df = forecast.normalize_df(d)
            x, date = self.df.x.values, pd.DatetimeIndex(self.df.date)
            p = np.abs(rng.normal(1, .3, m.n_params))
            self.f = lambda: pd.DataFrame(dict(
                y=m(x, date, p), z=m(x, date, p, **m.init_cache(x, date))))
        elif k == 'util':
            self.df = forecast.normalize_df(d)
            if freq is None:
                self.f = lambda: model_utils.interpolate_df(self.df)
            else:
                self.f = lambda: pd.DataFrame(dict(
                    f=[model_utils.detect_freq(self.df.date),
                       model_utils.is_multiplicative(self.df),
                       str(fm.get_l_model_auto_season(self.df.date))]))
        else:
            self.df = forecast.normalize_df(d.dropna())
            self.f = lambda: pd.DataFrame(
                dict(enumerate(fm.get_model_outliers(self.df))))
        self.hash = obs.df_hash(self.df)

    def __call__(self):
        try:
            r = self.f()
            if isinstance(r, dict):
                return {k: v for k, v in r.items() if k != 'optimize_info'}
            return r
        except Exception as e:
            return repr(type(e).__name__)


L_Q = ['q5', 'q20', 'q80', 'q95']  # random, see C12


def ordered(a):
    """Intervals are in order"""
    if set(L_Q) <= set(a.columns):
        q = a[L_Q].dropna().values
        return bool((np.diff(q, axis=1) >= -1e-9).all())
    return True


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return 'tables {} {}'.format(set(a), set(b))
        for k in sorted(a):
            d = same(a[k], b[k])
            if d:
                return 'table {}: {}'.format(k, d)
        return None
    if isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame):
        if not ordered(a):
            return 'intervals are not in order'
        na = [[c for c in L_Q if c in t.columns and t[c].isnull().all()]
              for t in (a, b)]
        if na[0] != na[1]:
            return 'intervals {} {}'.format(*na)
        return obs.table_diff(a, b, rtol=obs.NOISE, ignore=L_Q + [
            'params'])
    return None if isinstance(a, str) and a == b else \
        '{} {}'.format(str(a)[:200], str(b)[:200])


def same_job(a, b):
    """Difference, except for near ties between candidates"""
    d = same(a, b)
    if d and isinstance(a, dict) and isinstance(b, dict) and \
            'metadata' in a and 'metadata' in b:
        for r in (a, b):
            for _, g in r['metadata'].groupby('source'):
                v = g.loc[g.is_fit.astype(bool)].aic_c.dropna().sort_values()
                if len(v) > 1 and v.iloc[1] - v.iloc[0] < 1e-5 * max(
                        1., abs(v.iloc[0])):
                    return None
    return d


def tracer(rnd, count, folder, rate):
    """Delays at random lines of the library"""
    def local(frame, event, arg):
        if event == 'line' and rnd.random() < rate:
            count[0] += 1
            time.sleep(1e-5 if rnd.random() < .2 else 0.)
        return local

    def enter(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(folder) else None
    return enter


def run_case(case, ctx):
    rng = gen.rng_of('c28', case['kind'], case['seed'])
    obs.seed_lib(case['seed'])
    l_job = [Job(rng) for _ in range(6)]
    l_want = [j() for j in l_job]
    (threads if case['kind'] == 'threads' else fork)(ctx, rng, l_job, l_want)
    for j in l_job:
        ctx.check(obs.df_hash(j.df) == j.hash, 'shared',
                  'table of a {} changed', j.kind)


def threads(ctx, rng, l_job, l_want):
    import anticipy
    folder = os.path.dirname(os.path.abspath(anticipy.__file__))
    n = len(l_job)
    # all threads on one job, or each on other jobs
    orders = []
    for k in range(N_THREAD):
        orders.append(list(rng.permutation(n)) if rng.rand() < .6
                      else list(range(n)))
    l_rec = [[] for _ in range(N_THREAD)]
    log, l_err = [], []
    count = [0]
    rate = [.002, .01, .03][rng.randint(3)]
    seeds = rng.randint(1 << 30, size=N_THREAD)
    barrier = threading.Barrier(N_THREAD)
    old = sys.getswitchinterval()
    stop = threading.Event()
    l_bad, n_watch = [], [0]

    def work(k):
        try:
            sys.settrace(tracer(random.Random(int(seeds[k])), count, folder,
                                rate))
            barrier.wait(60)
            for i in orders[k]:
                log.append((k, int(i), 0))
                l_rec[k].append((i, l_job[i]()))
                log.append((k, int(i), 1))
        except BaseException as e:
            l_err.append(repr(e))
        finally:
            sys.settrace(None)

    def watch():
        # tables of the caller must not change during the calls either
        while not stop.wait(.002):
            for j in l_job:
                n_watch[0] += 1
                if obs.df_hash(j.df) != j.hash:
                    l_bad.append(j.kind)

    sys.setswitchinterval(2e-6)
    try:
        l_t = [threading.Thread(target=work, args=(k,))
               for k in range(N_THREAD)]
        w = threading.Thread(target=watch)
        for t in l_t + [w]:
            t.start()
        for t in l_t:
            t.join()
        stop.set()
        w.join()
    finally:
        sys.setswitchinterval(old)
    ctx.check(not l_err, 'errors', 'threads failed: {}', l_err[:2])
    for k in range(N_THREAD):
        for i, got in l_rec[k]:
            d = same_job(got, l_want[i])
            ctx.check(d is None, 'threads', '{} in a thread differs from '
                      'the same call alone: {}', l_job[i].kind, d)
    ctx.check(not l_bad, 'shared', 'tables of {} changed during the calls',
              set(l_bad))
    ctx.hit('shared', n_watch[0])
    ctx.hit('delays', count[0])
    # interleavings seen: jobs that were running at the same time
    running = {}
    for k, i, e in log:
        if e == 0:
            ctx.hit('overlaps', len(running))
            for q in running.values():
                ctx.state(*sorted((l_job[q].kind, l_job[i].kind)),
                          q == i)
            running[k] = i
        else:
            running.pop(k, None)


def fork(ctx, rng, l_job, l_want):
    """Children that inherit the state of the process"""
    l_child = []
    for k in range(2):
        order = [int(i) for i in rng.permutation(len(l_job))]
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rd)
                res = []
                for i in order:
                    r = l_job[i]()
                    if isinstance(r, dict):
                        r = {q: t.assign(model=t['model'].astype(str)).drop(
                            columns=[c for c in obs.L_VOLATILE
                                     if c in t.columns])
                            for q, t in r.items()}
                        if l_job[i].kind == 'fit':
                            r.pop('optimize_info', None)
                    res.append((i, r))
                with os.fdopen(wr, 'wb') as f:
                    pickle.dump(res, f)
                code = 0
            except BaseException as e:
                sys.stderr.write(repr(e))
            finally:
                os._exit(code)
        os.close(wr)
        l_child.append((pid, rd))
    # the parent goes on meanwhile
    l_own = [j() for j in l_job]
    l_raw = []
    for pid, rd in l_child:
        with os.fdopen(rd, 'rb') as f:
            l_raw.append(f.read())
        _, st = os.waitpid(pid, 0)
        ctx.check(st == 0, 'child', 'child ended with {}', st)
    for raw in l_raw:
        for i, got in pickle.loads(raw):
            d = same_job(got, l_want[i])
            ctx.check(d is None, 'forked', '{} in a child differs: {}',
                      l_job[i].kind, d)
    for i, got in enumerate(l_own):
        d = same_job(got, l_want[i])
        ctx.check(d is None, 'forked', '{} repeated differs: {}',
                  l_job[i].kind, d)
