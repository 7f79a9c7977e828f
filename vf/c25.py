"""C25 - the command line application equals the library.

Oracle: the tables the library returns for the same file and options, and
records of every file that was written. The application runs as its users run
it, as a script with arguments: in the process (with an audit hook on file
operations), and as a separate process.
"""
import contextlib
import gzip
import io
import logging
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

import numpy as np
import pandas as pd

from vf import gen, obs
from vf.files import Recorder, changes, snapshot

PROPERTY = 'C25'
RULE = ('random CSV files (frequencies, gaps, column names and orders, '
        'sources, weights, nulls, dates as text), all forms of input and '
        'output paths and options; non-trivial when both output tables were '
        'compared with those of the library')
FLOORS = {'data': 70, 'metadata': 70, 'files': 70, 'input': 70, 'png': 15,
          'html': 15, 'multi': 15, 'subprocess': 5, 'stale': 15,
          'rejected': 5, 'values': 5000, 'function': 12}
L_NAME = ['a.csv', 'my data.csv', 'x_fcast.csv', 'noext', 'v1.2.csv',
          'data.csv.gz', 'Ünï.csv', 'UPPER.CSV', 'a_metadata.csv',
          "it's (1).csv", 'a%20b.csv', 'x.txt']


def repo():
    return os.environ.get('ANTICIPY_REPO', '/repo')


def cases(tier, seed):
    n = dict(quick=1, thorough=16)[tier]
    l = [dict(kind='app', how='inside', seed=seed * 419 + i)
         for i in range(110 * n)]
    l += [dict(kind='app', how='process', seed=seed * 419 + i)
          for i in range(10 * n)]
    l += [dict(kind='reject', seed=seed * 419 + i) for i in range(10 * n)]
    return l


def make_file(rng, path):
    """Random input file. Returns column names used"""
    cols = dict(y='y', weight='weight', x='x', date='date', source='source')
    if rng.rand() < .4:
        for k, l in dict(y=['value', 'my y', 'date_y', 'source_y'],
                         weight=['w'], x=['n', 'index'],
                         date=['day', 'Date', 'x_date'],
                         source=['name', 'src']).items():
            if rng.rand() < .6:
                cols[k] = l[rng.randint(len(l))]
    n_src = int([1, 1, 1, 2, 3][rng.randint(5)])
    freq = [None, 'D', 'D', 'W', 'MS', 'M', 'QS', 'YS'][rng.randint(8)]
    l = []
    for i in range(n_src):
        s = gen.make_series(rng, freq, gaps=rng.rand() < .3)
        d = s.df()
        if rng.rand() < .2:
            d.loc[rng.randint(1, len(d)), 'y'] = np.nan
        d['source'] = ['s{}', 'Source, {}', 'q"{}', '{}', '{}0.5', 'é{}'][
            case_src(rng)].format(i + 1)
        l.append(d)
    d = pd.concat(l, ignore_index=True)
    if n_src == 1 and rng.rand() < .7:
        d = d.drop(columns='source')
    if rng.rand() < .3:
        d['weight'] = np.round(rng.uniform(.2, 2, len(d)), 2)
        if rng.rand() < .5:
            d.loc[rng.randint(len(d)), 'weight'] = 0
    if freq is not None:
        f = ['%Y-%m-%d', '%Y-%m-%d', '%Y/%m/%d', '%d %b %Y',
             '%Y-%m-%d %H:%M:%S', '%m/%d/%Y'][rng.randint(6)]
        if freq in ('D', 'W') and rng.rand() < .3:
            # a time of day
            f = '%Y-%m-%d %H:%M:%S'
            d['date'] = d.date + pd.Timedelta(
                minutes=int(rng.randint(1, 1440)))
        d['date'] = d.date.dt.strftime(f)
    if rng.rand() < .3:
        d['other'] = 'a'
    if rng.rand() < .3:
        d = d.sample(frac=1., random_state=int(rng.randint(2 ** 31)))
    d = d.rename(columns=cols)
    if rng.rand() < .3:
        d = d[[d.columns[i] for i in rng.permutation(len(d.columns))]]
    text = d.to_csv(index=False, sep=',',
                    line_terminator=['\n', '\r\n'][rng.randint(2)])
    data = text.encode('utf8')
    if path.endswith('.gz'):
        data = gzip.compress(data)
    with open(path, 'wb') as g:
        g.write(data)
    return cols, n_src, freq


def case_src(rng):
    return int(rng.randint(6))


def table_text(d):
    """A table as read back from a file, as text"""
    return d.astype(str).where(~d.isna(), '')


def nums(v):
    """List of parameters, from text or not"""
    if not isinstance(v, str):
        return np.asarray(v, float)
    try:
        return np.array([float(u) for u in v.strip('[]').replace(
            ',', ' ').split()])
    except ValueError:
        return v


def same_table(ctx, got, want, key, what):
    """Compare a file (all text) with a table of the library"""
    want = want.reset_index(drop=True)
    lc = list(want.columns)
    ctx.check(list(got.columns) == lc, key, '{}: columns {}, expected {}',
              what, list(got.columns), lc)
    ctx.check(len(got) == len(want), key, '{}: {} rows, expected {}', what,
              len(got), len(want))
    for c in lc:
        if c in obs.L_VOLATILE:
            continue
        g, w = got[c], want[c]
        null = w.isna().values
        bad = None
        if ((g == '').values != null).any():
            bad = 'nulls differ'
        elif pd.api.types.is_bool_dtype(w.dtype):
            if list(g) != [str(v) for v in w]:
                bad = 'values differ'
        elif pd.api.types.is_numeric_dtype(w.dtype):
            gv = np.array([float(v or 'nan') for v in g])
            wv = w.values.astype(float)
            ctx.hit('values', len(gv))
            # Rows are sorted twice, so sums can be in another order
            tol = 1e-5 * obs.scale_of(wv)
            if not obs.num_close(gv, wv, 1e-5, tol):
                i = int(np.argmax(~np.isclose(gv, wv, 1e-5, tol,
                                              equal_nan=True)))
                bad = 'row {}: {} expected {}'.format(i, gv[i], wv[i])
        elif pd.api.types.is_datetime64_any_dtype(w.dtype):
            if list(pd.to_datetime(g[~null])) != list(w[~null]):
                bad = 'dates differ'
        elif c in ('params', 'params_str'):
            for a, b in zip(g, w):
                a, b = nums(a), nums(b)
                if isinstance(a, str) or isinstance(b, str):
                    ok = isinstance(a, str) and a == b
                else:
                    ok = obs.num_close(a, b, 1e-3, 1e-4 * obs.scale_of(b))
                if not ok:
                    bad = 'parameters {}, expected {}'.format(a, b)
        else:
            if [str(v) for v in g[~null]] != [str(v) for v in w[~null]]:
                bad = 'values differ: {} expected {}'.format(
                    list(g[~null])[:2], list(w[~null])[:2])
        ctx.check(bad is None, key, '{}: column {}: {}', what, c, bad)


def run_script(argv, cwd):
    """The application, as a script, in this process"""
    path = os.path.join(repo(), 'anticipy', 'app.py')
    old, olddir, oldpath = sys.argv, os.getcwd(), list(sys.path)
    level = logging.root.manager.disable
    sys.argv = ['app.py'] + argv
    sys.path.insert(0, os.path.dirname(path))
    os.chdir(cwd)
    logging.disable(logging.CRITICAL)
    try:
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(path, run_name='__main__')
    finally:
        sys.argv, sys.path[:] = old, oldpath
        os.chdir(olddir)
        logging.disable(level)


def run_function(argv, cwd):
    """The same, by the function of the library"""
    path = os.path.join(repo(), 'anticipy', 'app.py')
    kw, i = {}, 0
    while i < len(argv):
        k = argv[i][2:]
        if k == 'include_all_fits':
            kw[k] = True
            i += 1
        else:
            kw[k] = float(argv[i + 1]) if k == 'forecast_years' \
                else argv[i + 1]
            i += 2
    olddir, level = os.getcwd(), logging.root.manager.disable
    oldpath = list(sys.path)
    logging.disable(logging.CRITICAL)
    sys.path.insert(0, os.path.dirname(path))
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            f = runpy.run_path(path, run_name='app')['run_forecast_app']
            f(kw.pop('path_in'), **kw)
    finally:
        sys.path[:] = oldpath
        os.chdir(olddir)
        logging.disable(level)


def run_case(case, ctx):
    rng = gen.rng_of('C25', case['kind'], case['seed'], case.get('how'))
    folder = os.path.realpath(tempfile.mkdtemp(
        prefix='c25.', dir=os.environ.get('VF_SCRATCH')))
    try:
        dict(app=app, reject=reject)[case['kind']](case, ctx, rng, folder)
    finally:
        import matplotlib.pyplot as plt
        plt.close('all')
        shutil.rmtree(folder, ignore_errors=True)


def paths(rng, folder):
    """Input path, argument for it, output argument, output folder, cwd"""
    a, b = os.path.join(folder, 'in'), os.path.join(folder, 'out.d')
    os.mkdir(a)
    os.mkdir(b)
    name = L_NAME[rng.randint(len(L_NAME))]
    p = os.path.join(a, name)
    cwd = folder
    arg = p
    k = rng.randint(8)
    if k == 0:
        cwd, arg = a, name
    elif k == 1:
        arg = os.path.join('in', name)
    elif k == 2:
        arg = os.path.join('.', 'out.d', '..', 'in', name)
    out, dest = None, a
    k = rng.randint(8)
    if k == 1:
        out, dest = b, b
    elif k == 2:
        out, dest = b + '/', b
    elif k == 3:
        with open(os.path.join(b, 'other.csv'), 'w') as f:
            f.write('z')
        out, dest = os.path.join(b, 'other.csv'), b
    elif k == 4:
        out, dest = '.', cwd
    elif k == 5:
        out = os.path.relpath(b, cwd)
        dest = b
    elif k == 6:
        out, dest = a, a
    return name, p, arg, out, dest, cwd


def app(case, ctx, rng, folder):
    from anticipy import forecast
    name, p, arg, out, dest, cwd = paths(rng, folder)
    cols, n_src, freq = make_file(rng, p)
    # The library
    kw = {'col_name_' + k: v for k, v in cols.items()}
    years = float([0, .1, .25, 1., 2.][rng.randint(5)])
    fits = bool(rng.rand() < .3)
    df = pd.read_csv(p)
    if cols['date'] in df:
        df[cols['date']] = pd.to_datetime(df[cols['date']])
    np.random.seed(case['seed'] % 2 ** 31)
    r = forecast.run_forecast(df, extrapolate_years=years,
                              simplify_output=False, include_all_fits=fits,
                              **kw)
    # The application
    argv = ['--path_in', arg]
    fmt = ['png', None, 'html', 'html', 'jupyter', 'nope'][rng.randint(6)]
    if out is not None:
        argv += ['--path_out', out]
    if years != 2. or rng.rand() < .5:
        argv += ['--forecast_years', str(years)]
    for k, v in cols.items():
        if v != k or rng.rand() < .2:
            argv += ['--col_name_' + k, v]
    if fits:
        argv += ['--include_all_fits']
    if fmt is not None:
        argv += ['--output_format', fmt]
    base = name.split('.')[0]
    ext = {None: 'png', 'png': 'png', 'html': 'html'}.get(fmt)
    want = {base + '_fcast.csv', base + '_metadata.csv'}
    if ext:
        want.add(base + '_fcast.' + ext)
    want = {os.path.normpath(os.path.join(os.path.relpath(dest, folder), v))
            for v in want}
    if rng.rand() < .3:
        # output of a previous run
        for v in want:
            if v != os.path.relpath(p, folder):
                with open(os.path.join(folder, v), 'w') as f:
                    f.write('old,' * 9 + '\n' * 400000)
        ctx.hit('stale')
    before = snapshot(folder)
    what = 'app {}'.format(argv)
    inside = case['how'] == 'inside'
    if inside:
        np.random.seed(case['seed'] % 2 ** 31)
        with Recorder() as rec:
            if rng.rand() < .35:
                run_function(argv, cwd)
                ctx.hit('function')
                what += ' (function)'
            else:
                run_script(argv, cwd)
        events = rec.affected()
    else:
        c = subprocess.run(
            [sys.executable, os.path.join(repo(), 'anticipy', 'app.py')] +
            argv, cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
            env=dict(os.environ, PYTHONPATH=repo(), MPLBACKEND='Agg',
                     PYTHONDONTWRITEBYTECODE='1'))
        ctx.check(c.returncode == 0, 'subprocess', '{}: exit code {}: {}',
                  what, c.returncode, c.stderr[-1500:])
        events = []
    # Files
    after = snapshot(folder)
    got = set(changes(before, after))
    ctx.check(got == want, 'files', '{}: files written {}, expected {}', what,
              sorted(got), sorted(want))
    bad = [e for e in events
           if os.path.dirname(os.path.realpath(e[1])) != dest]
    ctx.check(not bad, 'files', '{}: wrote outside of the output folder: {}',
              what, bad)
    ctx.check(before[os.path.relpath(p, folder)] ==
              after.get(os.path.relpath(p, folder)), 'input',
              '{}: input file was changed', what)
    # Tables
    for suffix, t in (('_fcast.csv', 'data'), ('_metadata.csv', 'metadata')):
        g = pd.read_csv(os.path.join(dest, base + suffix), dtype=str,
                        keep_default_na=False)
        same_table(ctx, g, r[t], t, what + ' ' + t)
    if ext == 'png':
        with open(os.path.join(dest, base + '_fcast.png'), 'rb') as f:
            h = f.read()
        ctx.check(h[:8] == b'\x89PNG\r\n\x1a\n' and b'IEND' in h[-16:],
                  'png', '{}: not a png', what)
    elif ext == 'html':
        from vf.c24 import page_data
        data, _ = page_data(os.path.join(dest, base + '_fcast.html'))
        n = sum(len(t.get('x', [])) for t in data)
        ctx.check(n >= len(r['data']), 'html', '{}: {} points in the plot of '
                  'a table with {} rows', what, n, len(r['data']))
    if n_src > 1:
        ctx.hit('multi')
    ctx.state('app', freq, n_src, fmt, years, fits, name,
              os.path.relpath(dest, folder), case['how'])


def reject(case, ctx, rng, folder):
    """A missing file, folder, or output path: an error, nothing written"""
    a = os.path.join(folder, 'a.csv')
    make_file(rng, a)
    argv = [[], ['--path_in', os.path.join(folder, 'b.csv')],
            ['--path_in', folder],
            ['--path_in', a, '--path_out', os.path.join(folder, 'none')],
            ['--path_in', a, '--col_name_y', 'no such column']][
        rng.randint(5)]
    before = snapshot(folder)
    with Recorder() as rec:
        try:
            run_script(argv, folder)
            ok = False
        except (Exception, SystemExit) as e:
            ok = not isinstance(e, SystemExit) or bool(e.code)
    ctx.check(ok, 'rejected', 'app {} succeeded', argv)
    ctx.check(not changes(before, snapshot(folder)) and not rec.affected(),
              'rejected', 'app {} wrote {}', argv, rec.affected())
    ctx.state('reject', len(argv))
