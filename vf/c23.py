"""C23 - automatic candidates follow the documented data requirements.

Oracle: the documented thresholds, recomputed from the dates of the samples
that count with the standard library; models are compared up to the order of
terms, as read from their names.
"""
import datetime as dt
import itertools

import numpy as np
import pandas as pd

from vf import gen, models, obs

PROPERTY = 'C23'
RULE = ('dates around every threshold of span and step, all frequencies, '
        'ignored samples at the ends, start of actuals, several series, all '
        'options; non-trivial when the candidates tried, or a composition '
        'type, were compared with the documented ones')
FLOORS = {'auto_candidates': 3000, 'run_candidates': 150, 'add_mult': 400,
          'list_model': 400, 'is_multiplicative': 150, 'auto_run': 15,
          'near_week': 200, 'near_year': 200, 'near_quarter': 60,
          'near_ramp': 20, 'near_calendar': 8, 'mult_true': 25,
          'mult_false': 50}
DAY = dt.timedelta(days=1)


def cases(tier, seed):
    n = dict(quick=200, thorough=4000)[tier]
    l = []
    for i in range(n):
        l += [dict(kind='auto', seed=seed * 3911 + i),
              dict(kind='run', seed=seed * 3911 + i),
              dict(kind='run', seed=seed * 3911 + i + 500000),
              dict(kind='list', seed=seed * 3911 + i),
              dict(kind='mult', seed=seed * 3911 + i)]
    return l


# ---- Names, up to the order of terms and to neutral terms -----------------

def canon(name):
    """('+', terms) / ('*', terms) / leaf, with sorted flattened terms.
    Neutral terms are removed."""
    pos = [0]

    def parse():
        if name[pos[0]] == '(':
            pos[0] += 1
            a = parse()
            op = name[pos[0]]
            pos[0] += 1
            b = parse()
            if name[pos[0]] != ')':
                raise ValueError(name)
            pos[0] += 1
            return (op, a, b)
        i = pos[0]
        while pos[0] < len(name) and name[pos[0]] not in '()+*':
            pos[0] += 1
        return name[i:pos[0]]

    t = parse()
    if pos[0] != len(name):
        raise ValueError(name)
    return flat(t)


def flat(t):
    if isinstance(t, str):
        return t
    op, l = t[0], []
    for u in t[1:]:
        u = flat(u)
        if u == 'null':
            continue
        if not isinstance(u, str) and u[0] == op:
            l += list(u[1:])
        else:
            l.append(u)
    if not l:
        return 'null'
    if len(l) == 1:
        return l[0]
    return (op,) + tuple(sorted(l, key=repr))


def comp(op, *l):
    return flat((op,) + l)


# ---- Oracle ----------------------------------------------------------------

def spans(l):
    """Smallest step and span of a list of dates (None with a single one)"""
    l = sorted(set(l))
    if len(l) < 2:
        return None, None
    return min(b - a for a, b in zip(l, l[1:])), l[-1] - l[0]


def want_season(l, op, weekly, yearly, periods=1.5):
    """Canonical seasonality candidates for dates l"""
    step, span = spans(l)
    w, y = ['null'], ['null']
    if step is not None:
        if span > periods * 7 * DAY and step <= DAY:
            w = ['season_wday', 'null'] if weekly is None else \
                weekly or ['null']
        if span > periods * 365 * DAY and step <= 92 * DAY:
            y = ['season_fourier_yearly', 'null'] if yearly is None else \
                yearly or ['null']
    r = {'null'}
    for a, b in itertools.product(w, y):
        r.add(comp(op, a, b))
    return r


def want_models(l, o):
    """Additive and multiplicative candidates for a dated series"""
    step, span = spans(l)
    if o['trend'] is None:
        trend = {'linear'}
        if span is not None and span > 2 * 365 * DAY:
            trend.add(comp('+', 'linear', 'ramp'))
    else:
        trend = {canon(models.expr_name(e)) for e in o['trend']}
    r = []
    for op in '+*':
        if o['season'] is None:
            s = want_season(l, op, o['weekly'], o['yearly'])
        else:
            s = {canon(models.expr_name(e)) for e in o['season']}
        if not s:
            c = set(trend)
        elif not trend:
            c = set(s)
        else:
            c = {comp(op, a, b) for a in trend for b in s}
        if o['calendar'] and span is not None and span > 365 * DAY and \
                step <= DAY:
            c = {comp(op, a, canon(b)) for a in c for b in o['calendar']} \
                if c else set(o['calendar'])
        r.append(c)
    return r


# ---- Workload --------------------------------------------------------------

TH = dict(week=10.5 * DAY, year=547.5 * DAY, ramp=730 * DAY,
          calendar=365 * DAY)


def span_near(rng, which=None):
    """A span around a threshold"""
    which = which or ['week', 'year', 'ramp', 'calendar'][rng.randint(4)]
    t = TH[which]
    d = [-DAY, -DAY / 2, dt.timedelta(hours=-1), dt.timedelta(0),
         dt.timedelta(hours=1), DAY / 2, DAY][rng.randint(7)]
    return t + d, which


def note(ctx, l):
    step, span = spans(l)
    if step is None:
        return
    for k, t in TH.items():
        if abs(span - t) <= 1.5 * DAY:
            ctx.hit('near_' + k)
    if 89 * DAY <= step <= 95 * DAY:
        ctx.hit('near_quarter')


def rand_dates(rng):
    """Irregular dates with a chosen smallest step and span"""
    start = dt.datetime(int(rng.randint(1980, 2050)),
                        int(rng.randint(1, 13)), int(rng.randint(1, 29)))
    step = [dt.timedelta(hours=1), dt.timedelta(hours=23), DAY, DAY,
            dt.timedelta(days=1, hours=1), 2 * DAY, 7 * DAY, 31 * DAY,
            90 * DAY, 92 * DAY, dt.timedelta(days=92, hours=1), 93 * DAY,
            181 * DAY][rng.randint(13)]
    span, _ = span_near(rng) if rng.rand() < .8 else \
        (DAY * int(rng.randint(1, 1200)), None)
    if rng.rand() < .5:
        span = DAY * (span // DAY)
    if span < step:
        span = step
    l = [start]
    while True:
        t = l[-1] + step * int([1, 1, 2, 5, 30][rng.randint(5)])
        if rng.rand() < .2:
            t += step / 2
        if t > start + span - step or len(l) > 40:
            break
        l.append(t)
    if len(l) > 1:
        l.insert(1, l[0] + step)
    l.append(start + span)
    return sorted(set(l))


def run_case(case, ctx):
    rng = gen.rng_of('c23', case['kind'], case['seed'])
    dict(auto=auto, run=run, list=lists, mult=mult)[case['kind']](
        ctx, rng, case)


L_W = ['season_wday', 'season_wday_2', 'null']
L_Y = ['season_month', 'dummy_christmas', 'season_fourier_yearly', 'null']


def override(rng, pool):
    if rng.rand() < .4:
        return None
    if rng.rand() < .2:
        return []
    k = int(rng.randint(1, len(pool)))
    return [pool[i] for i in rng.permutation(len(pool))[:k]]


def auto(ctx, rng, case):
    """The list of automatic seasonality models, for dates"""
    f = models.fm().get_l_model_auto_season
    for _ in range(12):
        l = rand_dates(rng)
        note(ctx, l)
        w, y = override(rng, L_W), override(rng, L_Y)
        q = [l[i] for i in rng.permutation(len(l))]
        q += [q[i] for i in rng.randint(0, len(q), int(rng.randint(3)))]
        s = pd.Series(pd.to_datetime(q))
        forms = [s, pd.DatetimeIndex(q), s.values,
                 pd.Series(s.values, index=np.arange(len(q)) + 7),
                 s.dt.tz_localize('UTC')]
        for op, am in (('+', 'add'), ('*', 'mult')):
            kw = {}
            if w is not None:
                kw['l_season_weekly'] = [models.get(e) for e in w]
            if y is not None:
                kw['l_season_yearly'] = [models.get(e) for e in y]
            before = {k: list(v) for k, v in kw.items()}
            per = 1.5
            if rng.rand() < .2:
                per = float([1, 2, .5][rng.randint(3)])
                kw['min_periods'] = per
            a = forms[rng.randint(len(forms))]
            r = f(a, season_add_mult=am, **kw)
            got = [canon(m.name) for m in r]
            want = want_season(l, op, w, y, per)
            ctx.check(set(got) == want and len(got) == len(set(got)),
                      'auto_candidates', '{} seasonality for {} dates from '
                      '{}, smallest step {}, span {} (weekly {}, yearly {}, '
                      'min periods {}): {}, expected {}', am, len(l), l[0],
                      *spans(l), w, y, per, got, sorted(want, key=str))
            ctx.check(all(kw[k] == v for k, v in before.items()),
                      'unchanged', 'lists of models given were changed')
        step, span = spans(l)
        ctx.state('auto', step, span > TH['week'], span > TH['year'],
                  w is None, y is None)
    for v in (l[:1], []):
        r = f(pd.Series(pd.to_datetime(v)))
        ctx.check([m.name for m in r] == ['null'], 'auto_single',
                  'seasonality for {} dates: {}', len(v), r)


def sparse(rng):
    """Sparse samples of a grid, around the thresholds: few samples to fit,
    long spans. Returns frequency, dates and their weights."""
    freq = ['D', 'D', 'D', 'D', 'H', 'W', 'MS', 'M', 'QS', 'Q', 'YS'][
        rng.randint(11)]
    st = gen.grid_start(freq, rng)
    span, which = span_near(rng)
    if freq == 'H' and which != 'week':
        span, which = span_near(rng, 'week')
    n = 2
    while gen.grid(freq, st, n - 1) - st < span:
        n += 1
    n = max(4, n + int(rng.randint(-1, 2)))
    keep = np.zeros(n, bool)
    keep[[0, n - 1]] = True
    keep[:5] = True
    if rng.rand() < .5:
        keep[-3:] = True
    keep[rng.randint(0, n, 8)] = True
    if freq in ('MS', 'M', 'QS', 'Q', 'YS') or n < 25:
        keep[:] = True
    l = [gen.grid(freq, st, int(i)) for i in np.nonzero(keep)[0]]
    w = np.ones(len(l))
    if rng.rand() < .35 and len(l) > 6:
        # ignored samples at the end or start shorten the span
        k = int(rng.randint(1, 4))
        if rng.rand() < .6:
            w[-k:] = 0
        else:
            w[:k] = 0
        if rng.rand() < .3:
            w[w == 0] = np.nan
    return freq, l, w


def options(rng, dated=True):
    o = dict(trend=None, season=None, weekly=None, yearly=None, calendar=None,
             naive=None)
    if rng.rand() < .25:
        o['trend'] = [[['constant'], ['constant', 'linear'],
                       ['linear', ['+', 'linear', 'ramp']], []]][0][
            rng.randint(4)]
    if rng.rand() < .2:
        o['season'] = [[], ['season_wday_2'], ['null', 'dummy_month_start']][
            rng.randint(3)] if dated else []
    if rng.rand() < .5:
        o['weekly'] = override(rng, L_W)
        o['yearly'] = override(rng, L_Y)
    if rng.rand() < .35:
        o['calendar'] = [['calendar_uk'], ['calendar_us', 'null'],
                         ['dummy_christmas', 'null']][rng.randint(3)]
    if rng.rand() < .3:
        o['naive'] = [['naive'], ['snaive_wday'], ['naive', 'linear'],
                      []][rng.randint(4)] if dated else ['naive']
    if not o['trend'] and o['trend'] is not None and \
            (not dated or not o['season'] and o['season'] is not None):
        o['trend'] = None
    return o


def kwargs(o):
    kw = {}
    for k, a in (('trend', 'l_model_trend'), ('season', 'l_model_season'),
                 ('weekly', 'l_season_weekly'), ('yearly', 'l_season_yearly'),
                 ('calendar', 'l_model_calendar'),
                 ('naive', 'l_model_naive')):
        if o[k] is not None:
            kw[a] = [models.get(e) for e in o[k]]
    return kw


def run(ctx, rng, case):
    """The models tried for each series"""
    n_src = int([1, 1, 2][rng.randint(3)])
    dated = rng.rand() < .93
    o = options(rng, dated)
    if not dated and o['trend'] == []:
        o['trend'] = None
    l_df, info = [], []
    start = None
    for i in range(n_src):
        if dated:
            freq, l, w = sparse(rng)
            d = pd.DataFrame(dict(date=pd.to_datetime(l)))
        else:
            freq, l, w = None, list(range(5, 30)), np.ones(25)
            d = pd.DataFrame(dict(x=l))
        d['y'] = np.round(rng.normal(100, 5, len(l)), 2)
        d['weight'] = w
        d['source'] = 's{}'.format(i)
        l_df.append(d)
        info.append((freq, l, w))
    df = pd.concat(l_df, ignore_index=True)
    if np.all(df.weight == 1) and rng.rand() < .5:
        df = df.drop(columns='weight')
    if rng.rand() < .3:
        df = df.sample(frac=1., random_state=case['seed'] % 2 ** 31)
    if n_src == 1:
        df = df.drop(columns='source')
    am = ['add', 'mult', 'both', 'both'][rng.randint(4)]
    kw = kwargs(o)
    if dated and n_src == 1 and rng.rand() < .2 and len(l) > 8:
        start = l[2]
        kw['date_start_actuals'] = pd.Timestamp(start)
    r = obs.run(df, seed=case['seed'], season_add_mult=am,
                include_all_fits=True, extrapolate_years=.02, **kw)
    m = r['metadata']
    for i, (freq, l, w) in enumerate(info):
        mi = m if n_src == 1 else m.loc[m.source == 's{}'.format(i)]
        used = [t for t, v in zip(l, w) if v > 0 and
                (start is None or t >= start)]
        if dated:
            note(ctx, used)
            add, mul = want_models(used, o)
        else:
            t = {'linear'} if o['trend'] is None else {
                canon(models.expr_name(e)) for e in o['trend']}
            add, mul = t, t
        want = dict(add=add, mult=mul, both=add | mul)[am]
        got = [canon(str(v)) for v in mi.model]
        naive = o['naive'] if o['naive'] is not None else \
            ['snaive_wday' if freq == 'D' else 'naive']
        want_all = want | set(naive)
        ctx.check(set(got) == want_all, 'run_candidates', 'models tried for '
                  '{} series {}..{} ({} samples, span {}, options {} {}): '
                  '{}; not expected {}, missing {}', freq, l[0], l[-1],
                  len(l), spans(used)[1] if dated else None, am, o,
                  sorted(set(got), key=str),
                  sorted(set(got) - want_all, key=str),
                  sorted(want_all - set(got), key=str))
        ctx.check(len(mi) == len(set(mi.model.astype(str))), 'twice',
                  'a model was tried twice: {}', list(mi.model))
        for name, v in zip(got, mi.add_mult):
            if am != 'both':
                ctx.check(v == am, 'add_mult', 'composition of {} reported '
                          'as {}, requested {}', name, v, am)
            elif name not in naive:
                ctx.check(v == ('add' if name in add else 'mult'), 'add_mult',
                          'composition of {} reported as {}', name, v)
        ctx.state('run', freq, am, len(want), o['trend'] is None,
                  o['season'] is None, bool(o['calendar']), dated)


def lists(ctx, rng, case):
    from anticipy import forecast
    for _ in range(8):
        a = [models.rand_expr(rng, 1) for _ in range(rng.randint(0, 4))]
        b = [models.rand_expr(rng, 1) for _ in range(rng.randint(0, 4))]
        if not a and not b:
            continue
        am = ['add', 'mult', 'both'][rng.randint(3)]
        la, lb = [models.get(e) for e in a], [models.get(e) for e in b]
        ka, kb = list(la), list(lb)
        got = forecast.get_list_model(
            la if la or rng.rand() < .5 else None,
            lb if lb or rng.rand() < .5 else None, am)
        if not a or not b:
            want = {models.expr_name(e) for e in a + b}
        else:
            want = {models.expr_name([op, u, v]) for u in a for v in b
                    for op in dict(add='+', mult='*', both='+*')[am]}
        names = [m.name for m in got]
        ctx.check({canon(v) for v in names} == {canon(v) for v in want} and
                  len(names) == len(set(names)), 'list_model',
                  'compositions of {} and {} ({}): {}, expected {}', a, b, am,
                  names, want)
        ctx.check(la == ka and lb == kb, 'unchanged', 'lists were changed')
    ctx.state('list', am, len(a), len(b))


def corr_stat(l, y, ddof):
    """Correlation of monthly mean and variance of linear residuals"""
    t = np.array([(d - l[0]).days for d in l], float)
    c = np.polyfit(t, y, 1)
    res = y - np.polyval(c, t)
    g = {}
    for d, v, e in zip(l, y, res):
        g.setdefault((d.year, d.month), []).append((v, e))
    mean, var = [], []
    for k in g.values():
        v = np.array(k)
        if len(v) - ddof <= 0:
            continue
        mean.append(v[:, 0].mean())
        var.append(v[:, 1].var(ddof=ddof))
    if len(mean) < 2 or np.std(mean) < 1e-9 or np.std(var) < 1e-12:
        return np.nan
    return float(np.corrcoef(mean, var)[0, 1])


def mult(ctx, rng, case):
    """Detection of series whose variance grows with their mean"""
    from anticipy import model_utils
    freq = ['D', 'D', 'W'][rng.randint(3)]
    st = gen.grid_start(freq, rng)
    days = int([40, 59, 60, 61, 75, 200, 400, 400, 700][rng.randint(9)])
    step = dict(D=1, W=7)[freq]
    n = days // step + 1
    l = [gen.grid(freq, st, i) for i in range(n)]
    i = np.arange(n)
    kind = ['mult', 'mult', 'mult', 'add', 'mid', 'down'][
        rng.randint(6)]
    level = 30 + i * step * rng.uniform(.5, 2)
    if kind == 'down':
        level = level[::-1]
    z = gen.wiggle(n, case['seed'] % 50)
    if kind in ('mult', 'down'):
        y = level * (1 + .3 * z)
    elif kind == 'add':
        y = level + 20 * z
    else:
        y = level * (1 + .1 * z) + 10 * rng.normal(0, 1, n)
    y = np.round(np.maximum(y, 1.), 4)
    w = np.ones(n)
    neg = ''
    df = pd.DataFrame(dict(date=pd.to_datetime(l), y=y,
                           x=[gen.x_of_date(d, st) for d in l]))
    u = rng.rand()
    k = int(rng.randint(n))
    if u < .1:
        df.loc[k, 'y'] = [-5., 0., -1e-9][rng.randint(3)]
        neg = 'negative'
    elif u < .25:
        # a negative value that does not count
        df['weight'] = 1.
        df.loc[k, 'y'] = -5.
        df.loc[k, 'weight'] = 0.
        neg = 'ignored'
        w[k] = 0
    elif u < .35:
        df.loc[k, 'y'] = np.nan
        w[k] = 0
        neg = 'null'
    elif u < .45:
        df['weight'] = 1.
        df.loc[df.index[:k], 'weight'] = 0.
        w[:k] = 0
        neg = 'short'
    lu = [d for d, v in zip(l, w) if v]
    yu = df.y.values[w > 0]
    if neg == 'negative' or len(lu) < 4 or lu[-1] - lu[0] < 60 * DAY:
        want = False
    else:
        c = [corr_stat(lu, yu, dd) for dd in (0, 1)]
        if any(.77 < v < .83 for v in c) or np.isnan(c[0]) != \
                np.isnan(c[1]) or (c[0] >= .8) != (c[1] >= .8):
            want = None
            ctx.hit('undecided')
        else:
            want = c[0] >= .8
    h = obs.df_hash(df)
    got = bool(model_utils.is_multiplicative(df))
    ctx.check(obs.df_hash(df) == h, 'unchanged', 'input was changed')
    if want is not None:
        ctx.check(got == want, 'is_multiplicative', 'multiplicative '
                  'composition of a {} {} series of {} days: {}, expected '
                  '{} ({})', freq, kind, days, got, want, neg)
        ctx.hit('mult_' + str(want).lower())
    num = df.drop(columns='date')
    ctx.check(not model_utils.is_multiplicative(num), 'is_multiplicative',
              'multiplicative composition without dates')
    for _ in range(2):
        # short prefixes
        j = int(rng.randint(1, min(n, 9)))
        ctx.check(not model_utils.is_multiplicative(df[:j]) or
                  freq == 'W' and j >= 4 and (l[j - 1] - l[0]) >= 60 * DAY,
                  'is_multiplicative', 'multiplicative composition with {} '
                  'samples', j)
    ctx.state('mult', freq, kind, days, neg, got)
    if rng.rand() < .5 and want is not None:
        r = obs.run(df.drop(columns='x'), seed=case['seed'],
                    season_add_mult='auto', include_all_fits=True,
                    l_model_trend=[models.get('linear')],
                    l_model_season=[models.get('season_wday_2'),
                                    models.get('null')],
                    l_model_naive=[], extrapolate_years=.02)
        names = {canon(str(v)) for v in r['metadata'].model}
        op = '*' if want else '+'
        ctx.check(names == {'linear', comp(op, 'linear', 'season_wday_2')}
                  and set(r['metadata'].add_mult) ==
                  {'mult' if want else 'add'}, 'auto_run', 'automatic '
                  'composition of a {} {} series of {} days: {} {}, expected '
                  '{} ({})', freq, kind, days, names,
                  set(r['metadata'].add_mult), want, neg)
