"""C24 - plots show the forecast data completely.

Monitors: what the figure holds when it is saved (static plots), the data in
the saved page (interactive plots), every file effect (audit hook and folder
snapshots), pages opened, the result code, and the table before and after;
compared to the table.
"""
import contextlib
import io
import json
import os
import re
import shutil
import struct
import tempfile
from urllib.parse import unquote

import numpy as np
import pandas as pd

from vf import files, gen, models, obs

PROPERTY = 'C24'
RULE = ('tables of real forecasts (both output tables, all candidates, 1 to '
        '14 sources, numeric and dated, with null values, in other row order '
        'and index) and synthetic ones; png and html, sizes, resolutions, '
        'titles, legends, intervals with any percentiles, existing and '
        'missing folders, wrong formats and paths; non-trivial when drawn '
        'values were compared')
FLOORS = {'png': 40, 'html': 60, 'panels': 40, 'values': 15000,
          'interval': 50, 'files': 100, 'table': 100, 'code': 100,
          'rejected': 8, 'size': 20, 'legend': 60}


def cases(tier, seed):
    n = dict(quick=1, thorough=16)[tier]
    l = [dict(kind='plot', output='png', seed=seed * 907 + i)
         for i in range(110 * n)]
    l += [dict(kind='plot', output='html', seed=seed * 907 + i)
          for i in range(150 * n)]
    l += [dict(kind='reject', seed=seed * 907 + i) for i in range(20 * n)]
    l += [dict(kind='jupyter', seed=seed * 907 + i) for i in range(8 * n)]
    return l


def table(rng, case):
    """A forecast table, and percentiles of its interval"""
    q = [(5, 20), (5, 20), (10, 30), (1, 49)][rng.randint(4)]
    n_src = int([1, 1, 1, 2, 3, 4, 5, 7][rng.randint(8)])
    if rng.rand() < .15:
        n_src = int(rng.randint(6, 15))
    dated = rng.rand() < .85
    if rng.rand() < .4:
        l = []
        for i in range(n_src):
            s = gen.make_series(rng, ['D', 'W', 'MS'][rng.randint(3)]
                                if dated else None,
                                n=int(rng.randint(4, 30)))
            d = s.df()
            if rng.rand() < .3 and len(d) > 6:
                d.loc[3, 'y'] = np.nan
            if n_src > 1:
                d['source'] = name_src(rng, i)
            l.append(d)
        d = pd.concat(l, ignore_index=True)
        o = dict(trend=[['linear'], ['constant', 'linear']][rng.randint(2)],
                 season=[], pi_q1=q[0], pi_q2=q[1],
                 extrapolate_years=float([.05, .3][rng.randint(2)]),
                 include_all_fits=bool(rng.rand() < .3))
        r = obs.run(d, seed=case['seed'], **models.kwargs(o))
        return r[['forecast', 'data'][int(rng.rand() < .4)]], q
    l = []
    for i in range(n_src):
        n, m = int(rng.randint(1, 40)), int(rng.randint(0, 30))
        if dated:
            t = pd.to_datetime(gen.dates(
                'D', gen.grid_start('D', rng), n + m))
        else:
            t = np.arange(n + m) + int(rng.randint(-5, 50))
        a = pd.DataFrame(dict(date=t[:n], y=rng.normal(10, 5, n),
                              model='actuals', is_actuals=True))
        k = max(0, n - 5) if rng.rand() < .5 else n
        f = pd.DataFrame(dict(date=t[k:], y=rng.normal(10, 5, n + m - k),
                              model='linear', is_actuals=False))
        w = np.abs(rng.normal(1, .3, len(f))) * 3
        f['q{}'.format(q[0])] = f.y - 2 * w
        f['q{}'.format(q[1])] = f.y - w
        f['q{}'.format(100 - q[1])] = f.y + w
        f['q{}'.format(100 - q[0])] = f.y + 2 * w
        d = pd.concat([a, f], ignore_index=True)
        if n_src > 1 or rng.rand() < .3:
            d['source'] = name_src(rng, i)
        l.append(d)
    d = pd.concat(l, ignore_index=True)
    d['is_actuals'] = d.is_actuals.astype(bool)
    return d, q


def name_src(rng, i):
    return ['s{}', 'Source {}', 'a-{}', '{}'][rng.randint(4)].format(i)


def variant(rng, d):
    """Same table, other index or columns"""
    k = rng.rand()
    if k < .2:
        d = d.copy()
        d.index = np.arange(len(d))[::-1] + 7
    elif k < .3:
        d = d.assign(extra='x')
    elif k < .5:  # sources interleaved
        d = d.sort_values(['is_actuals', 'date'], kind='stable')
    return d


def run_case(case, ctx):
    rng = gen.rng_of('C24', case['kind'], case.get('output'), case['seed'])
    folder = tempfile.mkdtemp(prefix='c24.', dir=os.environ.get('VF_SCRATCH'))
    cwd = os.getcwd()
    os.chdir(folder)
    try:
        globals()['case_' + case['kind']](case, ctx, rng, folder)
    finally:
        os.chdir(cwd)
        shutil.rmtree(folder)
        import matplotlib.pyplot as plt
        plt.close('all')


@contextlib.contextmanager
def watch(figs, pages):
    """Figures when saved, and pages opened"""
    import webbrowser
    import matplotlib.figure as mf
    save, op = mf.Figure.savefig, webbrowser.open

    def savefig(self, *a, **k):
        figs.append(capture(self))
        return save(self, *a, **k)

    def wopen(url, *a, **k):
        pages.append(url)
        return True
    mf.Figure.savefig = savefig
    webbrowser.open = wopen
    try:
        yield
    finally:
        mf.Figure.savefig = save
        webbrowser.open = op


def capture(fig):
    """State of a static figure"""
    l = []
    for ax in fig.axes:
        if not ax.get_visible():
            continue
        lines = {t.get_label(): (
            np.asarray(t.get_xdata(orig=False), float),
            np.asarray(t.get_ydata(orig=False), float))
            for t in ax.get_lines()}
        poly = [np.vstack([p.vertices for p in c.get_paths()])
                if c.get_paths() else np.zeros((0, 2))
                for c in ax.collections]
        leg = ax.get_legend()
        l.append(dict(title=ax.get_title(), lines=lines, poly=poly,
                      n_lines=len(ax.get_lines()),
                      legend=[t.get_text() for t in leg.get_texts()]
                      if leg else None, box=ax.get_position().bounds))
    return l


def case_plot(case, ctx, rng, folder):
    from anticipy import forecast_plot
    out = case['output']
    d, q = table(rng, case)
    d = variant(rng, d)
    d = d.copy()
    kw = dict(output=out)
    if rng.rand() < .5:
        kw['width'] = int(rng.choice([300, 640, 1001, 1920]))
    if rng.rand() < .5:
        kw['height'] = int(rng.choice([200, 480, 777, 1080]))
    if rng.rand() < .4:
        kw['title'] = 'Title {}'.format(rng.randint(100))
    if rng.rand() < .3 and out == 'png':
        kw['dpi'] = int(rng.choice([50, 100, 72]))
    if rng.rand() < .4:
        kw['show_legend'] = bool(rng.rand() < .5)
    if rng.rand() < .6:
        kw['include_interval'] = True
    kw.update(pi_q1=q[0], pi_q2=q[1])
    if q == (5, 20) and rng.rand() < .5:
        del kw['pi_q1'], kw['pi_q2']
    sub = ['', 'sub', 'new', 'new/er'][rng.randint(4)]
    os.mkdir(os.path.join(folder, 'sub'))
    name = ['plot', 'a.b', 'with space'][rng.randint(3)]
    path = os.path.join(folder, sub, name)
    if rng.rand() < .3:
        path = os.path.relpath(path, folder)
    target = os.path.join(folder, sub, name + '.' + out)
    with open(os.path.join(folder, 'other.txt'), 'w') as f:
        f.write('x')
    if rng.rand() < .2 and sub in ('', 'sub'):
        with open(target, 'w') as f:
            f.write('old' * 100000)
    if rng.rand() < .15:
        kw['auto_open'] = True
    before = files.snapshot(folder)
    h = obs.df_hash(d)
    figs, pages = [], []
    with watch(figs, pages), files.Recorder() as rec, \
            contextlib.redirect_stdout(io.StringIO()):
        code = forecast_plot.plot_forecast(d, path=path, **kw)
    what = '{} of {} rows, {} sources, {}'.format(
        out, len(d), d.source.nunique() if 'source' in d else 1, kw)
    ctx.check(code == 0, 'code', '{}: result {}', what, code)
    ctx.check(obs.df_hash(d) == h, 'table', '{}: the table was changed', what)
    diff = [p for p in files.changes(before, files.snapshot(folder))
            if not p.endswith('/')]
    ctx.check(diff == [os.path.relpath(target, folder)], 'files',
              '{}: files written: {}, expected {}', what, diff, target)
    bad = [p for p in rec.affected() if p[1] != target and not (
        p[0] == 'os.mkdir' and os.path.dirname(target).startswith(p[1]))]
    ctx.check(not bad, 'files', '{}: affects {}', what, bad)
    ctx.check(bool(pages) == bool(kw.get('auto_open')), 'files',
              '{}: pages opened {}', what, pages)
    if pages and os.path.isabs(path):
        ctx.check(unquote(pages[0]) == 'file://' + target, 'files', '{}: opened {}',
                  what, pages)
    multi = 'source' in d and d.source.nunique() > 1
    srcs = list(d.loc[d.is_actuals, 'source'].unique()) if multi else [None]
    ctx.state(out, len(srcs), bool(kw.get('include_interval')), q)
    if out == 'png':
        check_png(ctx, d, q, srcs, figs, target, kw, what)
    else:
        check_html(ctx, d, q, srcs, target, kw, what)


def rows(d, src, actuals):
    m = d.is_actuals.astype(bool)
    if not actuals:
        m = ~m
    if src is not None:
        m &= d.source == src
    return d.loc[m]


def same_points(a, b):
    """Same multiset of points"""
    def key(p):
        return sorted((round(float(x), 6), -1e300 if y is None or np.isnan(
            float(y)) else round(float(y), 9)) for x, y in p)
    a, b = key(a), key(b)
    return len(a) == len(b) and all(
        abs(u[0] - v[0]) <= 1e-6 and abs(u[1] - v[1]) <= 1e-6 * max(
            1, abs(u[1])) for u, v in zip(a, b))


def x_num(s):
    """Position of a date on the axis of a static plot"""
    if pd.api.types.is_numeric_dtype(s):
        return s.values.astype(float)
    import matplotlib.dates as md
    return np.asarray(md.date2num(s.dt.to_pydatetime()), float)


def check_png(ctx, d, q, srcs, figs, target, kw, what):
    with open(target, 'rb') as f:
        head = f.read(24)
    ctx.check(head[:8] == b'\x89PNG\r\n\x1a\n', 'png', '{}: not a png', what)
    w, h = struct.unpack('>II', head[16:24])
    for got, name in ((w, 'width'), (h, 'height')):
        if kw.get(name):
            ctx.check(abs(got - kw[name]) <= 1, 'size', '{}: {} is {}', what,
                      name, got)
    ctx.check(len(figs) == 1, 'png', '{}: {} figures saved', what, len(figs))
    panels = figs[0]
    ctx.check(len(panels) == len(srcs), 'panels', '{}: {} panels for {} '
              'sources', what, len(panels), len(srcs))
    boxes = set(p['box'] for p in panels)
    ctx.check(len(boxes) == len(srcs), 'panels', '{}: panels overlap', what)
    for src in srcs:
        l = [p for p in panels if src is None or p['title'] == str(src)]
        ctx.check(len(l) == 1, 'panels', '{}: {} panels for {}', what,
                  len(l), src)
        p = l[0]
        for lab, act in (('Actuals', True), ('Forecast', False)):
            t = rows(d, src, act)
            ctx.check(lab in p['lines'], 'png', '{}: no {}', what, lab)
            x, y = p['lines'][lab]
            ctx.check(same_points(zip(x, y), zip(x_num(t.date), t.y)),
                      'png', '{}: {} of {} are {} points, {} in table, or '
                      'other values', what, lab, src, len(x), len(t))
            ctx.hit('values', len(t))
        ctx.check(p['n_lines'] == 2, 'png', '{}: {} lines', what,
                  p['n_lines'])
        ctx.check((p['legend'] is not None) == kw.get('show_legend', True),
                  'legend', '{}: legend {}', what, p['legend'])
        if p['legend'] is not None:
            ctx.check(set(p['legend']) == {'Actuals', 'Forecast'}, 'legend',
                      '{}: legend {}', what, p['legend'])
        t = rows(d, src, False)
        for k in q:
            lo, hi = 'q{}'.format(k), 'q{}'.format(100 - k)
            if not kw.get('include_interval'):
                ctx.check(not p['poly'], 'interval', '{}: unrequested '
                          'interval', what)
                continue
            if lo not in d.columns or hi not in d.columns:
                continue
            u = t.loc[t[lo].notnull() & t[hi].notnull()]
            if len(u) < 2 or d.loc[d.is_actuals, lo].notnull().any():
                continue
            x = x_num(u.date)
            pts = np.vstack([np.column_stack([x, u[lo].values]),
                             np.column_stack([x, u[hi].values])])
            ok = any(covers(c, pts) for c in p['poly'])
            ctx.check(ok, 'interval', '{}: interval {}-{} of {} is not drawn '
                      'as in the table ({} areas)', what, lo, hi, src,
                      len(p['poly']))
            ctx.hit('values', len(pts))
        # areas stay within the intervals of this source
        cols = [c for k in q for c in ('q{}'.format(k), 'q{}'.format(100 - k))
                if c in d.columns]
        if p['poly'] and cols and not d.loc[d.is_actuals, cols].notnull(
                ).any().any():
            u = t.loc[t[cols].notnull().any(axis=1)]
            c = np.vstack(p['poly'])
            if len(u):
                x, v = x_num(u.date), u[cols].values
                tol = 1e-6 * max(1., np.nanmax(np.abs(v)))
                ok = not len(c) or (
                    c[:, 0].min() >= min(x) - 1e-4 and
                    c[:, 0].max() <= max(x) + 1e-4 and
                    c[:, 1].min() >= np.nanmin(v) - tol and
                    c[:, 1].max() <= np.nanmax(v) + tol)
            else:
                ok = not len(c)
            ctx.check(ok, 'interval', '{}: interval drawn for {} goes beyond '
                      'that of the table', what, src)


def covers(c, pts):
    s = set((round(float(a), 5), round(float(b), 5)) for a, b in c)
    return all((round(float(a), 5), round(float(b), 5)) in s for a, b in pts)


def page_data(path):
    """Traces and layout in a saved page"""
    text = open(path, encoding='utf8').read()
    i = text.rindex('Plotly.newPlot(')
    dec = json.JSONDecoder()
    i = text.index('[', text.index(',', i))
    data, i = dec.raw_decode(text, i)
    i = text.index('{', i)
    layout, i = dec.raw_decode(text, i)
    return data, layout


def x_key(v, dated):
    if not dated:
        return float(v)
    return pd.Timestamp(v).value / 8.64e13


def check_html(ctx, d, q, srcs, target, kw, what):
    data, layout = page_data(target)
    dated = not pd.api.types.is_numeric_dtype(d.date)
    ctx.hit('html')
    for name in ('width', 'height'):
        if kw.get(name):
            ctx.check(layout.get(name) == kw[name], 'size', '{}: {} is {}',
                      what, name, layout.get(name))
    if kw.get('title'):
        t = layout.get('title')
        t = t.get('text') if isinstance(t, dict) else t
        ctx.check(t == kw['title'], 'html', '{}: title {}', what, t)
    ctx.check(layout.get('showlegend') == kw.get('show_legend', True),
              'legend', '{}: legend {}', what, layout.get('showlegend'))
    axes = sorted(set((t.get('xaxis', 'x'), t.get('yaxis', 'y'))
                      for t in data))
    ctx.check(len(axes) == len(srcs), 'panels', '{}: {} panels for {} '
              'sources', what, len(axes), len(srcs))

    def dom(a):
        v = layout.get(a[0] + 'axis' + a[1:], {})
        return v.get('domain', [0, 1])
    boxes = set(map(str, [(dom(x), dom(y)) for x, y in axes]))
    ctx.check(len(boxes) == len(srcs), 'panels', '{}: panels overlap', what)
    where = {}
    if len(srcs) > 1:
        for an in layout.get('annotations', []):
            for x, y in axes:
                dx, dy = dom(x), dom(y)
                if abs(an['x'] - sum(dx) / 2) < 1e-6 and \
                        abs(an['y'] - dy[1]) < 1e-6:
                    where[an['text']] = (x, y)
        ctx.check(sorted(where) == sorted(map(str, srcs)), 'panels',
                  '{}: titles {}, sources {}', what, sorted(where), srcs)
    for src in srcs:
        ax = axes[0] if src is None else where[str(src)]
        l = [t for t in data
             if (t.get('xaxis', 'x'), t.get('yaxis', 'y')) == ax]
        for name, act in (('Actuals', True), ('Forecast', False)):
            m = [t for t in l if t.get('name') == name]
            ctx.check(len(m) == 1, 'html', '{}: {} traces of {} of {}', what,
                      len(m), name, src)
            t = rows(d, src, act)
            x, y = m[0].get('x', []), m[0].get('y', [])
            ctx.check(len(x) == len(y) and same_points(
                [(x_key(a, dated), b) for a, b in zip(x, y)],
                [(x_key(a, dated), b) for a, b in zip(t.date, t.y)]),
                'html', '{}: {} of {} are {} points, {} in table, or other '
                'values', what, name, src, len(x), len(t))
            ctx.hit('values', len(t))
        rest = [t for t in l if t.get('name') not in ('Actuals', 'Forecast')]
        t = rows(d, src, False)
        if not kw.get('include_interval'):
            ctx.check(not rest, 'interval', '{}: unrequested traces {}',
                      what, [t.get('name') for t in rest])
            continue
        for k in q:
            lo, hi = 'q{}'.format(k), 'q{}'.format(100 - k)
            if lo not in d.columns or hi not in d.columns:
                continue
            found = []
            for i, tr in enumerate(rest):
                for c in (lo, hi):
                    if same_points(
                            [(x_key(a, dated), b) for a, b in
                             zip(tr.get('x', []), tr.get('y', []))],
                            [(x_key(a, dated), b) for a, b in
                             zip(t.date, t[c])]):
                        found.append((c, i, tr))
            if not len(t):
                continue
            ctx.check({lo, hi} <= set(f[0] for f in found), 'interval',
                      '{}: interval {}-{} of {}, drawn {}', what, lo, hi,
                      src, [f[0] for f in found])
            # one side is filled up to the other, just before it
            ok = any(f[2].get('fill') == 'tonexty' and
                     any(g[0] != f[0] and g[1] == f[1] - 1 for g in found)
                     for f in found)
            ctx.check(ok, 'interval', '{}: interval {}-{} of {} is not '
                      'filled', what, lo, hi, src)
            ctx.hit('values', 2 * len(t))


def case_reject(case, ctx, rng, folder):
    """No path, or an unknown format: failure is reported, nothing written"""
    from anticipy import forecast_plot
    d, q = table(rng, case)
    h = obs.df_hash(d)
    kw = [dict(output='png'), dict(output='html'), dict(),
          dict(output='html', path=''), dict(output='png', path=''),
          dict(output='pdf', path=os.path.join(folder, 'p')),
          dict(output='', path=os.path.join(folder, 'p'))][rng.randint(7)]
    figs, pages = [], []
    with watch(figs, pages), files.Recorder() as rec:
        code = forecast_plot.plot_forecast(d, **kw)
    ctx.check(code == 1, 'rejected', '{}: result {}', kw, code)
    ctx.check(not files.snapshot(folder) and not rec.affected() and
              not pages, 'rejected', '{}: files {} {}', kw,
              files.snapshot(folder), rec.affected())
    ctx.check(obs.df_hash(d) == h, 'table', 'the table was changed')


def case_jupyter(case, ctx, rng, folder):
    from anticipy import forecast_plot
    d, q = table(rng, case)
    h = obs.df_hash(d)
    figs, pages = [], []
    with watch(figs, pages), files.Recorder() as rec, \
            contextlib.redirect_stdout(io.StringIO()):
        forecast_plot.plot_forecast(d, 'jupyter', include_interval=True)
    # the notebook keeps its own history
    ctx.check(not files.snapshot(folder) and not pages, 'files',
              'jupyter: files {}', files.snapshot(folder))
    ctx.check(obs.df_hash(d) == h, 'table', 'the table was changed')
    ctx.hit('jupyter')
