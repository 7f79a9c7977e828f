"""C29 - calls leave no trace in the process.

Monitors: snapshots of process-wide state before and after each call (error
handling, options, filters, logging, environment, folder, plot settings, open
figures, files, threads, random state), an audit hook on files written, and
the number of live objects and bytes retained over series of calls.
"""
import contextlib
import decimal
import gc
import io
import locale
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import tracemalloc
import warnings

import numpy as np
import pandas as pd

from vf import files, gen, models, obs

PROPERTY = 'C29'
TECHNIQUE = ('runtime monitoring: state snapshots, audit hook and memory '
             'accounting around calls of the real code')
RULE = ('calls of every public function (forecasts with random series and '
        'options, fits, plots, pages, outliers, helpers), also calls that '
        'fail, under default and unusual process settings; series of up to '
        '150 calls for retained memory; non-trivial when state before and '
        'after a call was compared')
FLOORS = {'state': 150, 'failed_calls': 10, 'failed_plots': 6, 'random_state': 60,
          'files': 100, 'png': 12, 'html': 12, 'memory': 4,
          'settings': 60, 'same_result': 15}


def cases(tier, seed):
    n = dict(quick=1, thorough=12)[tier]
    l = [dict(kind='state', seed=seed * 3547 + i) for i in range(90 * n)]
    l += [dict(kind='plot', seed=seed * 3547 + i) for i in range(40 * n)]
    l += [dict(kind='memory', what=w, seed=seed * 3547 + i)
          for w in ('run', 'fit', 'model', 'png', 'html')
          for i in range(n)]
    return l


def pandas_options():
    o = {}
    for k in ('mode.chained_assignment', 'mode.copy_on_write',
              'mode.use_inf_as_na', 'mode.string_storage', 'display.width',
              'display.max_rows', 'display.max_columns', 'display.precision',
              'display.float_format', 'display.max_colwidth',
              'plotting.backend', 'compute.use_bottleneck',
              'compute.use_numexpr', 'display.expand_frame_repr'):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                o[k] = pd.get_option(k)
            except Exception:
                pass
    return o


def loggers():
    d = {}
    for k in ['root'] + sorted(logging.root.manager.loggerDict):
        q = logging.getLogger() if k == 'root' else \
            logging.root.manager.loggerDict[k]
        if isinstance(q, logging.Logger) and (
                k == 'root' or k.startswith('anticipy')):
            d[k] = (q.level, q.disabled, q.propagate,
                    tuple(str(h) for h in q.handlers),
                    len(q.filters))
    d['disable'] = logging.root.manager.disable
    return d


def fds():
    d = {}
    for k in os.listdir('/proc/self/fd'):
        try:
            d[k] = os.readlink('/proc/self/fd/' + k)
        except OSError:
            pass
    # sockets and pipes belong to the harness; the log of a font or page
    # template may stay open
    return sorted(v for v in d.values() if v.startswith('/') and
                  not v.startswith(('/proc', '/dev')))


def snapshot(plots=True):
    s = dict(
        numpy_errors=np.geterr(), numpy_print=np.get_printoptions(),
        numpy_errcall=np.geterrcall(),
        pandas=pandas_options(),
        filters=[(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4])
                 for f in warnings.filters],
        showwarning=warnings.showwarning, logging=loggers(),
        environment=dict(os.environ), folder=os.getcwd(),
        threads=sorted(t.name for t in threading.enumerate()),
        locale=locale.setlocale(locale.LC_ALL, None),
        decimal=str(decimal.getcontext()),
        recursion=sys.getrecursionlimit(), path=list(sys.path),
        switch=sys.getswitchinterval(), python_random=random.getstate(),
        stdout=id(sys.stdout), stderr=id(sys.stderr),
        excepthook=sys.excepthook, umask=umask(), gc=gc.isenabled(),
        thresholds=gc.get_threshold(),
        signals=[str(signal.getsignal(k)) for k in (
            signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGHUP)],
        trace=(sys.gettrace(), sys.getprofile()), files=fds())
    if plots:
        import matplotlib
        import matplotlib.pyplot as plt
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            s['plot_settings'] = {k: str(v) for k, v in
                                  dict(matplotlib.rcParams).items()}
        s['figures'] = plt.get_fignums()
        import plotly.io as pio
        s['plotly'] = (pio.templates.default, str(pio.renderers.default))
    return s


def umask():
    with open('/proc/self/status') as f:
        for line in f:
            if line.startswith('Umask'):
                return line.strip()


def diff(a, b):
    l = []
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                l.append('{}: {}'.format(k, {
                    q: (a[k].get(q), b[k].get(q))
                    for q in sorted(set(a[k]) | set(b[k]), key=str)
                    if a[k].get(q) != b[k].get(q)}))
            else:
                l.append('{}: {} -> {}'.format(k, str(a[k])[:150],
                                               str(b[k])[:150]))
    return '; '.join(l)[:600]


@contextlib.contextmanager
def settings(rng):
    """Unusual settings of the process of the caller"""
    import matplotlib as mpl
    import matplotlib.pyplot as plt
    k = rng.randint(9)
    name = ['default', 'numpy_print', 'numpy_ignore', 'pandas_display',
            'style', 'random', 'decimal', 'warn_always', 'chained'][k]
    with contextlib.ExitStack() as st:
        # other than the settings of this harness, and than usual ones
        st.enter_context(np.errstate(**{
            q: ['ignore', 'warn'][rng.randint(2)]
            for q in ('divide', 'over', 'under', 'invalid')}))
        st.enter_context(warnings.catch_warnings())
        warnings.simplefilter(['default', 'always', 'once'][rng.randint(3)])
        st.enter_context(contextlib.redirect_stderr(io.StringIO()))
        st.callback(logging.disable, logging.root.manager.disable)
        logging.disable(int([0, 5, 25, 45][rng.randint(4)]))
        root = logging.getLogger()
        h = logging.NullHandler()
        root.addHandler(h)
        st.callback(root.removeHandler, h)
        st.callback(root.setLevel, root.level)
        root.setLevel(int([10, 25, 35][rng.randint(3)]))
        if k == 1:
            st.enter_context(np.printoptions(precision=12, linewidth=400))
        elif k == 2:
            st.enter_context(np.errstate(all='ignore'))
        elif k == 3:
            st.enter_context(pd.option_context(
                'display.width', 40, 'display.max_rows', 4,
                'display.precision', 2))
        elif k == 4:
            st.enter_context(plt.style.context('dark_background'))
            st.enter_context(mpl.rc_context({'figure.figsize': (3, 2),
                                             'lines.linewidth': 5}))
        elif k == 5:
            old = random.getstate()
            st.callback(random.setstate, old)
            random.seed(5)
        elif k == 6:
            st.enter_context(decimal.localcontext()).prec = 5
        elif k == 7:
            warnings.simplefilter('always')
        elif k == 8:
            st.enter_context(pd.option_context('mode.chained_assignment',
                                               None))
        yield name


def ready():
    """First use of the libraries, that load what they need"""
    from anticipy import forecast_plot
    d = gen.Series('D', gen.grid_start('D', np.random.RandomState(1)), 20,
                   'noise', np.random.RandomState(2)).df()
    r = obs.run(d, extrapolate_years=.05)
    folder = tempfile.mkdtemp(prefix='vf_c29_')
    try:
        for out in ('png', 'html'):
            forecast_plot.plot_forecast(
                r['data'], out, os.path.join(folder, 'a'), width=300,
                height=200)
    finally:
        shutil.rmtree(folder)


DONE = []


def run_case(case, ctx):
    import matplotlib
    matplotlib.use('Agg')
    if not DONE:
        with contextlib.redirect_stderr(io.StringIO()):
            ready()
        DONE.append(1)
        import matplotlib.pyplot as plt
        plt.close('all')
        plt.rcdefaults()
        matplotlib.use('Agg')
    rng = gen.rng_of('c29', case['kind'], case.get('what'), case['seed'])
    dict(state=state, plot=plot, memory=memory)[case['kind']](
        ctx, rng, case)


def calls(rng):
    """name, call: a random call of the library"""
    from anticipy import forecast, forecast_models as fm, model_utils
    freq = [None, 'D', 'D', 'W', 'MS', 'H'][rng.randint(6)]
    s = gen.make_series(rng, freq, gaps=rng.rand() < .3,
                        n=int(rng.randint(3, 80)))
    d = s.df()
    if rng.rand() < .3:
        d['weight'] = (rng.rand(len(d)) > .2) * 1.
    if rng.rand() < .3:
        d.loc[d.index[rng.randint(len(d))], 'y'] = np.nan
    o = models.rand_options(rng, freq is not None)
    o['extrapolate_years'] = min(.3, o['extrapolate_years'])
    if freq is None:
        o.pop('trend', None)
        o.pop('calendar', None)
        o.pop('season', None)
    if freq != 'D':
        o.pop('calendar', None)
    kw = models.kwargs(o)
    k = rng.randint(13)
    n = None
    if k < 5:
        if rng.rand() < .3:
            kw['find_outliers'] = True
        if rng.rand() < .2:
            kw['verbose'] = True
        return 'run_forecast', lambda: forecast.run_forecast(d, **kw)
    if k == 5:
        d2 = pd.concat([d.assign(source='a'), d.assign(source='b')],
                       ignore_index=True)
        return 'run_forecast', lambda: forecast.run_forecast(
            d2, simplify_output=False, **kw)
    if k == 6:  # fails: no values column, or no table, or wrong models
        bad = [lambda: forecast.run_forecast(d.rename(columns=dict(y='q'))),
               lambda: forecast.run_forecast(None),
               lambda: forecast.run_forecast(d, l_model_trend=[1]),
               lambda: forecast.run_forecast(d.assign(y='text')),
               lambda: forecast.fit_model(fm.model_linear, None),
               lambda: fm.get_model_dummy('q', 5)]
        return 'failing call', bad[rng.randint(len(bad))]
    if k == 12:
        def f_err(a_x, a_date, params, is_mult=False, **kwargs):
            raise RuntimeError('injected')
        m = fm.ForecastModel('err', 2, f_err)
        return 'failing call', lambda: forecast.run_forecast(
            d, l_model_trend=[m, fm.model_linear], l_model_season=[])
    dn = forecast.normalize_df(d)
    if k == 7:
        m = models.get(['linear', 'ramp', 'sigmoid', 'exp', 'constant'][
            rng.randint(4)])
        return 'fit_model', lambda: forecast.fit_model(m, dn, freq)
    if k == 8:
        return 'get_model_outliers', lambda: fm.get_model_outliers(
            dn.dropna())
    if k == 9 and freq:
        return 'get_l_model_auto_season', lambda: \
            fm.get_l_model_auto_season(dn.date)
    if k == 10 and freq:
        m = fm.get_model_from_calendars(fm.CalendarBankHolUK())
        return 'calendar', lambda: m(dn.x.values,
                                     pd.DatetimeIndex(dn.date),
                                     np.ones(m.n_params))
    return 'interpolate_df', lambda: model_utils.interpolate_df(
        dn, interpolate_y=True)


def quiet(f):
    """Result of a call, or its exception"""
    try:
        return f(), None
    except (Exception, SystemExit) as e:
        return None, e


def monitored(ctx, name, f, folder, allowed=()):
    """Run a call, compare the state of the process before and after"""
    a = snapshot()
    with files.Recorder() as w:
        r, err = quiet(f)
    gc.collect()
    b = snapshot()
    d = diff(a, b)
    ctx.check(not d, 'state', '{} changed the process: {}', name, d)
    ctx.hit('settings', len(a))
    bad = [p for p in w.affected() if p[1] not in allowed]
    ctx.check(not bad, 'files', '{} wrote {}', name, bad[:3])
    if err is not None:
        ctx.hit('failed_calls')
    return r, err


def state(ctx, rng, case):
    with settings(rng) as kind:
        name, f = calls(rng)
        # the generator of numpy may be used, but never set
        l = []
        st0 = np.random.get_state()
        for seed in (case['seed'] % (1 << 31), (case['seed'] + 7) % (
                1 << 31)):
            np.random.seed(seed)
            r, err = monitored(ctx, name, f, None)
            l.append(np.random.get_state())
        same = np.array_equal(l[0][1], l[1][1]) and l[0][2] == l[1][2]
        ctx.check(not same, 'random_state', '{} set the state of the random '
                  'generator', name)
        np.random.set_state(st0)
        ctx.state(name, kind, type(err).__name__)
    # the same call with default settings gives the same result
    if name == 'run_forecast' and err is None and r is not None and \
            kind not in ('numpy_print',):
        np.random.seed((case['seed'] + 7) % (1 << 31))
        r2, _ = quiet(f)
        for p, q in ([(r[k], r2[k]) for k in ('data', 'forecast')]
                     if isinstance(r, dict) else [(r, r2)]):
            dd = obs.table_diff(p, q, rtol=obs.NOISE)
            ctx.check(dd is None, 'same_result', 'result depends on '
                      'settings ({}): {}', kind, dd)


def table(rng):
    n_src = int([1, 1, 2, 4][rng.randint(4)])
    l = []
    for i in range(n_src):
        s = gen.make_series(rng, ['D', 'W'][rng.randint(2)],
                            n=int(rng.randint(8, 30)))
        l.append(s.df().assign(source='s%d' % i))
    d = pd.concat(l, ignore_index=True)
    if n_src == 1:
        d = d.drop(columns='source')
    r = obs.run(d, extrapolate_years=.1)
    return r[['data', 'forecast'][rng.randint(2)]]


def failing(rng, t, out, path, kw):
    """A plot that cannot be made"""
    k = rng.randint(5)
    if k == 0:
        with open(path, 'w') as f:
            f.write('not a folder')
        return t, os.path.join(path, 'plot'), kw
    if k == 1:
        return t, path, dict(kw, width='wide')
    if k == 2:
        return t, path, dict(kw, dpi='high')
    if k == 3:
        return t.drop(columns=['model', 'y']), path, kw
    return t.assign(y=[object() for _ in range(len(t))]), path, kw


def plot(ctx, rng, case):
    from anticipy import forecast_plot
    t = table(rng)
    out = ['png', 'html'][rng.randint(2)]
    kw = {}
    if rng.rand() < .6:
        kw = dict(width=300, height=200)
    if rng.rand() < .5:
        kw['title'] = 'a title'
    if rng.rand() < .5:
        kw['include_interval'] = True
    folder = tempfile.mkdtemp(prefix='vf_c29_')
    try:
        path = os.path.join(folder, 'plot')
        import matplotlib.pyplot as plt
        own = None
        with settings(rng) as kind:
            if rng.rand() < .4:
                # a figure of the user stays open, current and as it is
                own = plt.figure()
                own.add_subplot(111).plot([1, 2, 3])
            with contextlib.redirect_stderr(io.StringIO()):
                r, err = monitored(
                    ctx, out + ' plot', lambda: forecast_plot.plot_forecast(
                        t, out, path, **kw), folder,
                    [path + '.' + out, folder])
            if err is not None:
                raise err
            ctx.check(os.path.exists(path + '.' + out), 'made',
                      'no {}', out)
            if rng.rand() < .4:
                p2 = os.path.join(folder, 'fails')
                t2, p, kw2 = failing(rng, t, out, p2, kw)
                with contextlib.redirect_stderr(io.StringIO()):
                    _, err = monitored(
                        ctx, 'failing {} plot'.format(out),
                        lambda: forecast_plot.plot_forecast(
                            t2, out, p, **kw2), folder,
                        [p + '.' + out, p2 + '.' + out, p2, folder])
                ctx.hit('failed_plots', err is not None)
            if own is not None:
                ctx.check(plt.gcf() is own and len(own.axes) == 1 and
                          len(own.axes[0].lines) == 1, 'own_figure',
                          'figure of the user changed by a {} plot', out)
                plt.close(own)
        ctx.hit(out)
        ctx.state(out, kind, own is not None)
    finally:
        shutil.rmtree(folder)


def retained(f, k):
    """Bytes and objects retained by k calls, after k calls to warm up"""
    for i in range(k):
        f(i)
    gc.collect()
    tracemalloc.start()
    try:
        for i in range(k):  # free lists, buffers
            f(k + i)
        gc.collect()
        a, na = tracemalloc.get_traced_memory()[0], len(gc.get_objects())
        for i in range(2 * k):
            f(2 * k + i)
        gc.collect()
        b, nb = tracemalloc.get_traced_memory()[0], len(gc.get_objects())
    finally:
        tracemalloc.stop()
    return (b - a) / (2. * k), (nb - na) / (2. * k)


def memory(ctx, rng, case):
    from anticipy import forecast, forecast_models as fm, forecast_plot
    w = case['what']
    seed = int(rng.randint(1 << 20))

    def series(i):
        return gen.make_series(np.random.RandomState(seed + i), 'D',
                               n=200).df()

    if w == 'run':
        k = 12

        def f(i):
            forecast.run_forecast(series(i), extrapolate_years=.1)
    elif w == 'fit':
        k = 30

        def f(i):
            m = fm.model_linear + fm.model_season_wday
            forecast.fit_model(m, forecast.normalize_df(series(i)), 'D')
    elif w == 'model':
        k = 12
        l_model = [models.get(e) for e in sorted(models.REF)] + [
            fm.model_calendar_uk, fm.model_calendar_us,
            fm.model_calendar_ita, fm.model_naive, fm.model_snaive_wday,
            fm.get_model_dummy('d', ['2015-02-03']),
            fm.get_model_dummy('h', fm.CalendarChristmasUK.rules[0]),
            fm.get_model_from_datelist('l', ['2015-02-03'], ['2015-04-05'])]
        l_model = [q for q in l_model if q.n_params or q.name == 'null']

        def f(i):
            d = pd.date_range('2015-01-01', periods=300, freq='D') + \
                pd.Timedelta(i, unit='D')
            x = np.arange(300.) + i
            m = fm.model_linear + fm.model_season_month * \
                fm.model_season_fourier_yearly
            c = m.init_cache(x, d)
            m(x, d, np.ones(m.n_params), **c)
            m(x, d, np.ones(m.n_params))
            m = fm.get_model_from_calendars(fm.CalendarBankHolIta())
            m(x, d, np.ones(m.n_params))
            # models that live as long as the process
            for q in l_model:
                q(x, d, np.ones(q.n_params))
                q(x, d, np.ones(q.n_params), is_mult=True,
                  **q.init_cache(x, d))
                q.f_init_params(x, x + 1., d)
                q.f_bounds(x, x + 1., d)
                q.validate_input(x, x + 1., d)
    else:
        k = 5 if w == 'png' else 8
        t = obs.run(series(0), extrapolate_years=.1)['data']
        folder = tempfile.mkdtemp(prefix='vf_c29_')

        def f(i):
            forecast_plot.plot_forecast(t, w, os.path.join(folder, 'a'),
                                        width=300, height=200)
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            size, n = retained(f, k)
    finally:
        if w in ('png', 'html'):
            shutil.rmtree(folder)
    # what leaks of a call is at least one table, array or figure; the rest
    # of the process fluctuates by much less than that per call
    limit = dict(run=1500, fit=1000, model=1500, png=20000, html=20000)[w]
    ctx.check(size < limit and n < 1., 'memory', '{:.0f} bytes and {:.1f} objects '
              'retained for each call of {}', size, n, w)
    ctx.state('memory', w)
