"""C08 - the forecast covers the documented dates exactly once.

Oracle: own date arithmetic (vf/gen.py), independent of pandas offsets and of
the code under test.
"""
import math
import numpy as np
import pandas as pd

from vf import gen, models, obs, ref

PROPERTY = 'C08'
RULE = ('every supported frequency x start (all week days, month lengths, '
        'leap years, period ends) x length x gaps x ignored first/last '
        'samples x requested first date x years of extrapolation x sources; '
        'plus direct extrapolations; non-trivial when the dates of a fitted '
        'model were compared with the documented grid')
FLOORS = {'grid_dates': 250, 'forecast_dates': 100, 'direct_dates': 1000,
          'naive_dates': 40, 'future_samples': 500, 'dates_compared': 5000}

L_YEARS = [0., .02, .05, .1, 1 / 12., .25, .27, 1 / 3., .5, .99, 1., 1.5, 2.,
           2.5, .07, .29, .57, 1.15, .58]


def cases(tier, seed):
    n = dict(quick=50, thorough=600)[tier]
    l = []
    for f in gen.L_FREQ + [None]:
        for i in range(n):
            l.append(dict(kind='run', freq=f, seed=seed * 3001 + i))
    for i in range(dict(quick=24, thorough=300)[tier]):
        l.append(dict(kind='direct', seed=seed * 3001 + i))
    for i in range(dict(quick=40, thorough=600)[tier]):
        l.append(dict(kind='multi', seed=seed * 3001 + i))
    return l


def years(rng, freq):
    y = L_YEARS[rng.randint(len(L_YEARS))]
    if rng.rand() < .3:
        y = float(np.round(rng.uniform(0, 3), 2))
    elif rng.rand() < .25:
        # a number of samples, as a fraction of the year: e.g.
        # 365 * (29 / 365) is less than 29
        units = {None: 100, 'D': 365, 'W': 52, 'M': 12, 'Q': 4, 'Y': 1,
                 'A': 1, 'H': 8760}[freq and freq[0]]
        k = [k for k in range(1, units + 1)
             if math.floor(k / units * units) < k] or [1]
        return k[rng.randint(len(k))] / units
    if freq == 'H':
        y = y / 20.
    return float(y)


def expected(grid, freq, start, i0, n, y, off=0):
    if freq is None:
        return [v + off for v in range(grid[i0], grid[-1] + 1 +
                                       gen.n_future(None, y))]
    return gen.dates(freq, start, n + gen.n_future(freq, y))[i0:]


def same_dates(a, b):
    if isinstance(b[0], (int, float, np.number)):
        a = [round(float(t), 6) + 0. for t in a]
        b = [round(float(t), 6) + 0. for t in b]
    else:
        a = [pd.Timestamp(t) for t in a]
        b = [pd.Timestamp(t) for t in b]
    if a == b:
        return None
    extra = [t for t in a if t not in set(b)][:3]
    miss = [t for t in b if t not in set(a)][:3]
    return '{} samples {}..{} expected {} samples {}..{}; extra {} ' \
        'missing {} ordered {}'.format(
            len(a), a[:1], a[-1:], len(b), b[:1], b[-1:], extra, miss,
            a == sorted(a))


def fraction(rng):
    # sums are not exact
    return [0, 0, .1, .3, .7, 1 / 3., .05][rng.randint(7)]


def direct(case, ctx):
    from anticipy import forecast, forecast_models
    rng = gen.rng_of('c08d', case['seed'])
    for _ in range(60):
        freq = (gen.L_FREQ + [None])[rng.randint(10)]
        n = int(rng.randint(1, 50))
        y = years(rng, freq)
        x0 = float(rng.randint(0, 9))
        if freq is None:
            a = int(rng.randint(-20, 200))
            off = fraction(rng)
            exp = [v + off for v in range(a, a + n + gen.n_future(None, y))]
            f = forecast.extrapolate_model(
                forecast_models.model_linear, [2., 1.], exp[0], exp[n - 1],
                extrapolate_years=y, x_start_actuals=x0)
            x = np.arange(len(exp)) + x0
        else:
            s = gen.grid_start(freq, rng)
            label = gen.freq_label(freq, s)
            exp = gen.dates(freq, s, n + gen.n_future(freq, y))
            a, b = exp[0], exp[n - 1]
            if rng.rand() < .4:
                a, b = str(a), str(b)
            else:
                a, b = pd.Timestamp(a), pd.Timestamp(b)
            f = forecast.extrapolate_model(
                forecast_models.model_linear, [2., 1.], a, b, label, y,
                x_start_actuals=x0)
            x = np.array([(t.date() - s.date()).days for t in exp]) + x0
        d = same_dates(list(f.index), exp)
        ctx.check(d is None, 'direct_dates', 'extrapolation {} {} {}: {}',
                  freq, a, y, d)
        ctx.check(obs.num_close(f.y, 2 * x + 1), 'direct_values',
                  'extrapolation {} {}: values not at the documented x',
                  freq, a)
        ctx.hit('dates_compared', len(exp))


def make(rng, freq):
    n = gen.typical_n(freq, rng) if freq else int(rng.randint(6, 60))
    if rng.rand() < .2:
        n = int(rng.randint(4, 8))
    s = gen.make_series(rng, freq, n=n, shape=['linear', 'noise'][
        rng.randint(2)], gaps=rng.rand() < .4 and n >= 8)
    d = s.df()
    l_g = [g for g, k in zip(s.grid, s.keep) if k]
    key = 'date' if freq else 'x'
    i0 = 0
    v = rng.randint(5)
    start = None
    if v in (1, 3):
        # ignored samples, at the start, the end, and in the middle
        w = np.ones(len(d))
        k = rng.randint(0, min(3, len(d) - 3))
        w[:k] = 0
        if rng.rand() < .5:
            w[len(d) - rng.randint(1, 3):] = 0
        if len(d) > 12:
            w[6] = 0
        d['weight'] = w
        i0 = int(np.argmax(w > 0))
    if v in (2, 3) and len(d) > 8:
        j = int(rng.randint(1, len(d) - 5))
        start = l_g[j]
        if rng.rand() < .5 and freq not in (None, 'H'):
            start = pd.Timestamp(start) - pd.Timedelta('20h')
        if 'weight' in d and not (d.weight[j:] > 0).any():
            start = None
        else:
            i0 = j if 'weight' not in d else \
                j + int(np.argmax(d.weight.values[j:] > 0))
    if rng.rand() < .3 and len(d) > 12:
        d.loc[d.index[i0 + 2:i0 + 3], 'y'] = np.nan
    g0 = s.grid.index(l_g[i0])
    if rng.rand() < .3:
        d = d.sample(frac=1., random_state=rng.randint(9999))
    off = 0
    # gaps are filled at integer steps
    if not freq and s.keep.all() and 'weight' not in d and start is None:
        off = fraction(rng)
        d['x'] = d['x'] + off
    return s, d, start, g0, l_g, i0, off


def run_case(case, ctx):
    if case['kind'] == 'direct':
        return direct(case, ctx)
    freq = case.get('freq')
    rng = gen.rng_of('c08', case['kind'], freq, case['seed'])
    if case['kind'] == 'multi':
        freq = gen.L_FREQ[rng.randint(len(gen.L_FREQ))]
        l_f = [freq] + [gen.L_FREQ[rng.randint(len(gen.L_FREQ))]
                        for _ in range(2)]
    else:
        l_f = [freq]
    dated = freq is not None
    y = years(rng, 'H' if 'H' in l_f else freq)
    l = []
    for f in l_f:
        s, d, start, g0, l_g, i0, off = make(rng, f)
        if len(l_f) > 1 and start is not None:
            start, g0, i0 = None, 0, 0
            d = d.drop(columns='weight', errors='ignore')
        if len(l_f) > 1 and 'weight' not in d:
            d['weight'] = 1.
        l.append((s, d, start, g0, l_g, i0, off))
    kw = dict(l_model_trend=[models.get('linear'), models.get('constant')],
              l_model_season=[], l_model_naive=[models.get('naive')],
              extrapolate_years=y, include_all_fits=True)
    if len(l_f) == 1:
        df = l[0][1]
        if l[0][2] is not None:
            kw['date_start_actuals'] = l[0][2]
    else:
        df = pd.concat([t[1].assign(source='s{}'.format(i))
                        for i, t in enumerate(l)], ignore_index=True)
    r = obs.run(df, seed=case['seed'], **kw)
    for i, (s, d, start, g0, l_g, i0, off) in enumerate(l):
        src = 's{}'.format(i) if len(l) > 1 else 'src'
        exp = expected(s.grid, s.freq, s.start, g0, s.n, y, off)
        n_fut = gen.n_future(s.freq, y)
        md = r['metadata']
        md = md.loc[(md.source == src) & md.is_fit.astype(bool)]
        for m in md.model:
            t = obs.fdata(r, src, m)
            if m == 'naive':
                got = list(t.date)
                # all but the samples before any is known
                k = len(exp) - n_fut
                tail = exp[k:] if n_fut else []
                def key(v):
                    return pd.Timestamp(v) if dated else round(float(v), 6)
                e = [key(v) for v in tail]
                g = [key(v) for v in got]
                ctx.check(g == sorted(set(g)), 'naive_dates',
                          'naive dates repeated or not sorted')
                ctx.check(set(e) <= set(g) and set(g) <= set(
                    [key(v) for v in exp]),
                    'naive_dates', 'naive dates {}..{} n={} expected within '
                    '{}..{}', g[:1], g[-1:], len(g), exp[0], exp[-1])
                continue
            dd = same_dates(list(t.date), exp)
            ctx.check(dd is None, 'grid_dates', '{} start {} n {} years {} '
                      'first used {}: {}: {}', s.freq, s.grid[0], s.n, y,
                      i0, m, dd)
            ctx.hit('dates_compared', len(exp))
            ctx.hit('future_samples', n_fut)
            ctx.check((t.weight == 1).all() and t.y.notnull().all(),
                      'forecast_rows', 'weights or nulls in forecast rows')
        best = md.loc[md.is_best_fit.astype(bool)].model.tolist()
        f = r['forecast']
        f = obs.fc_rows(f.loc[f.source == src])
        if best and best[0] != 'naive':
            dd = same_dates(list(f.date), exp)
            ctx.check(dd is None, 'forecast_dates', 'forecast table of {}: '
                      '{}', best[0], dd)
        ctx.state(s.freq, len(l), start is not None, 'weight' in d,
                  bool(s.keep.all()), n_fut > 0)
