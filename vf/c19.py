"""C19 - calendar and dummy models mark exactly the right dates.

Oracle: calendars computed from the standard library only (Gregorian computus,
n-th weekdays, substitution rules); lists and conditions checked date by date.
Monitors: marks do not depend on the window, its order, the time of day, the
time zone or on earlier calls; effects are added to or scale marked samples
only; a fit recovers effects and carries them to future dates.
"""
import datetime as dt

import numpy as np
import pandas as pd

from vf import gen, models

PROPERTY = 'C19'
RULE = ('calendars of UK, Italy and US and their parts, as models, dummies '
        'and in lists, over windows of 1-2500 daily, hourly, weekly, monthly '
        'or scattered dates in 1972-2099, in any order and time zone; random '
        'holiday rules, lists of dates or numbers in several types, '
        'conditions; windows split, repeated and visited in random order on '
        'one model; fits of series with effects on marked dates; '
        'non-trivial when marked dates were seen')
FLOORS = {'calendar': 300, 'marked': 8000, 'unmarked': 100000,
          'window': 400, 'history': 300, 'list': 300, 'numbers': 50,
          'holiday': 100, 'condition': 50, 'fit': 15, 'future_marked': 60,
          'cache': 300}
D = dt.date


# ---- Oracle: dates of holidays, by year

def easter(y):
    a, b, c = y % 19, y // 100, y % 100
    d, e = b // 4, b % 4
    f = (b + 8) // 25
    g = (b - f + 1) // 3
    h = (19 * a + b - d - g + 15) % 30
    i, k = c // 4, c % 4
    q = (32 + 2 * e + 2 * i - h - k) % 7
    m = (a + 11 * h + 22 * q) // 451
    n = h + q - 7 * m + 114
    return D(y, n // 31, n % 31 + 1)


def nth(y, m, wday, n):
    """n-th week day of a month, from its end if negative"""
    l = [D(y, m, k) for k in range(1, 32)
         if k <= gen.calendar.monthrange(y, m)[1]]
    l = [d for d in l if d.weekday() == wday]
    return l[n - 1] if n > 0 else l[n]


def days(d, n):
    return d + dt.timedelta(days=n)


def next_monday(d):
    return days(d, {5: 2, 6: 1}.get(d.weekday(), 0))


def next_mon_or_tue(d):
    """Second of two adjacent holidays"""
    return days(d, {5: 2, 6: 2, 0: 1}.get(d.weekday(), 0))


def nearest(d):
    return days(d, {5: -1, 6: 1}.get(d.weekday(), 0))


def uk_bank(y):
    e = easter(y)
    return [days(e, -2), days(e, 1), nth(y, 5, 0, 1), nth(y, 5, 0, -1),
            nth(y, 8, 0, -1)]


def uk_xmas(y):
    return [next_monday(D(y, 1, 1)), next_monday(D(y, 12, 25)),
            next_mon_or_tue(D(y, 12, 26))]


def ita_bank(y):
    return [days(easter(y), 1), D(y, 4, 25), D(y, 5, 1), D(y, 6, 2),
            D(y, 8, 15), D(y, 11, 1), D(y, 12, 8)]


def ita_xmas(y):
    return uk_xmas(y) + [next_monday(D(y, 1, 6))]


def us(y):
    l = [nearest(D(y, 1, 1)), nth(y, 2, 0, 3), nth(y, 5, 0, -1),
         nearest(D(y, 7, 4)), nth(y, 9, 0, 1), nth(y, 10, 0, 2),
         nearest(D(y, 11, 11)), nth(y, 11, 3, 4), nearest(D(y, 12, 25))]
    if y >= 1986:
        l.append(nth(y, 1, 0, 3))
    if y >= 2021:
        l.append(nearest(D(y, 6, 19)))
    return l


CAL = dict(uk=[uk_xmas, uk_bank], ita=[ita_xmas, ita_bank], us=[us])
_MEMO = {}


def marked(f, d):
    """Is a date marked by a calendar"""
    d = d.date() if isinstance(d, dt.datetime) else d
    out = False
    for y in (d.year - 1, d.year, d.year + 1):  # moved to another year
        if (f, y) not in _MEMO:
            _MEMO[f, y] = set(f(y))
        out = out or d in _MEMO[f, y]
    return out


# ---- Workload

def cases(tier, seed):
    n = dict(quick=1, thorough=50)[tier]
    l = []
    for i in range(60 * n):
        for k in ('uk', 'ita', 'us'):
            l.append(dict(kind='calendar', cal=k, seed=seed * 811 + i))
    for i in range(90 * n):
        l.append(dict(kind='holiday', seed=seed * 811 + i))
        l.append(dict(kind='list', seed=seed * 811 + i))
        l.append(dict(kind='datelist', seed=seed * 811 + i))
    for i in range(30 * n):
        l.append(dict(kind='numbers', seed=seed * 811 + i))
        l.append(dict(kind='condition', seed=seed * 811 + i))
    for i in range(24 * n):
        l.append(dict(kind='fit', seed=seed * 811 + i))
    return l


def window(rng):
    """List of wall clock datetimes, in any order"""
    y = int(rng.randint(1972, 2099))
    st = dt.datetime(y, int(rng.randint(1, 13)), int(rng.randint(1, 29)))
    u = rng.randint(8)
    if u == 7:  # around the turn of the year
        st = dt.datetime(y, 12, int(rng.randint(20, 32)))
        l = [days(st, k) for k in range(int(rng.randint(1, 15)))]
    elif u == 0:
        l = [days(st, k) for k in range(int(rng.randint(1, 40)))]
    elif u in (1, 2):
        l = [days(st, k) for k in range(int(rng.randint(300, 2500)))]
    elif u == 3:
        l = [st + dt.timedelta(hours=k + int(rng.randint(24)))
             for k in range(int(rng.randint(1, 900)))]
    elif u == 4:
        l = [days(st, 7 * k) for k in range(int(rng.randint(1, 300)))]
    elif u == 5:
        l = gen.dates(['MS', 'M', 'YS', 'Y'][rng.randint(4)],
                      st.replace(day=1), int(rng.randint(1, 80)))
    else:
        l = [days(st, int(k)) for k in rng.randint(-3000, 3000, 60)]
        l = [d for d in l if 1971 <= d.year]
        l = [d + dt.timedelta(minutes=int(rng.randint(1440))) for d in l]
    if rng.rand() < .3:
        l = [l[i] for i in rng.permutation(len(l))]
    return l


def index(l, rng):
    d = pd.DatetimeIndex(l)
    if rng.rand() < .25:
        d = d.tz_localize(['Europe/London', 'US/Eastern', 'Asia/Tokyo'][
            rng.randint(3)], nonexistent='shift_forward', ambiguous=True)
    return d


def full(v, n):
    v = np.asarray(v, float)
    return np.full(n, float(v)) if v.ndim == 0 else v


def expect(l_f, l, p, mult, offset=1.):
    """Effect of parameters on marked dates"""
    out = []
    for d in l:
        v = 1. if mult else 0.
        for f, a in zip(l_f, p):
            if f(d):
                v = v * (a + offset) if mult else v + a
        out.append(v)
    return np.array(out)


def examine(ctx, m, l_f, l, rng, monitor, name):
    """Compare a model with the functions that mark dates"""
    n = len(l)
    d = index(l, rng)
    l = [t.to_pydatetime().replace(tzinfo=None) for t in d]
    x = np.array([(t - min(l)).days for t in l])
    p = np.round(rng.uniform(-3, 3, len(l_f)), 3)
    ctx.check(m.n_params == len(l_f), monitor, '{} has {} parameters instead '
              'of {}', name, m.n_params, len(l_f))
    out = {}
    for mult in (False, True):
        want = expect(l_f, l, p, mult)
        got = full(m(x, d, p, is_mult=mult), n)
        i = int(np.argmax(~np.isclose(got, want)))
        ctx.check(got.shape == want.shape and np.allclose(
            got, want, atol=1e-12), monitor, '{} mult {} p {}: {} for {}, {} '
            'expected ({} dates {} to {}, {})', name, mult, p, got[i], d[i],
            want[i], n, d.min(), d.max(), d.dtype)
        out[mult] = got
        k = int((want != float(mult)).sum())
        ctx.hit('marked', k)
        ctx.hit('unmarked', n - k)
        c = m.init_cache(x, d)
        g = full(m(x, d, p, is_mult=mult, **c), n)
        ctx.check(np.allclose(g, got), 'cache', '{} mult {}: differs with '
                  'cached variables', name, mult)
    # any part of the window, in any order, and each date alone
    l_k = [[int(rng.randint(n))], list(range(n // 2)), list(range(n // 2, n)),
           list(rng.permutation(n)), list(rng.randint(0, n, 3)),
           list(rng.randint(0, n, min(2 * n, 500)))]
    l_k += [[int(i)] for i in np.nonzero(out[False])[0][:4]]
    for k in l_k:
        if not len(k):
            continue
        mult = bool(rng.randint(2))
        g = full(m(x[k], d[k], p, is_mult=mult), len(k))
        ctx.check(np.allclose(g, out[mult][k]), 'window', '{} marks other '
                  'dates when evaluated for {} of {} dates: {} {}', name,
                  len(k), n, list(d[k])[:5], g[:5])
    ctx.state(monitor, name, str(d.dtype)[:20], min(n // 50, 9))


def run_case(case, ctx):
    rng = gen.rng_of('C19', case['kind'], case.get('cal', ''), case['seed'])
    globals()['case_' + case['kind']](case, ctx, rng)


def library_cal(k, rng):
    """Model or calendars of the library, and functions that mark dates"""
    m = models.fm()
    l_f = [lambda d, f=f: marked(f, d) for f in CAL[k]]
    from pandas.tseries.holiday import USFederalHolidayCalendar
    l_c = dict(uk=[m.CalendarChristmasUK, m.CalendarBankHolUK],
               ita=[m.CalendarChristmasIta, m.CalendarBankHolIta],
               us=[USFederalHolidayCalendar])[k]
    u = rng.randint(5)
    if u < 2:
        return 'model_calendar_' + k, getattr(m, 'model_calendar_' + k), l_f
    if u == 2:
        i = int(rng.randint(len(l_c)))
        return 'dummy', m.get_model_dummy('x', l_c[i]()), [l_f[i]]
    if u == 3:
        i = int(rng.randint(len(l_c)))
        return 'single', m.get_model_from_calendars(l_c[i]()), [l_f[i]]
    # calendars of several countries, and one without rules
    from pandas.tseries.holiday import AbstractHolidayCalendar
    o = CAL['uk'][1]
    return 'several', m.get_model_from_calendars(
        [m.CalendarBankHolUK(), AbstractHolidayCalendar(rules=[])] +
        [c() for c in l_c], name='c'), \
        [lambda d: marked(o, d)] + l_f


def case_calendar(case, ctx, rng):
    name, m, l_f = library_cal(case['cal'], rng)
    # several windows in a row, on the same model
    for i in range(4):
        examine(ctx, m, l_f, window(rng), rng, 'calendar',
                case['cal'] + ' ' + name)
        ctx.hit('history', i > 0)


L_RULE = ['fixed', 'monday', 'montue', 'nearest', 'first', 'last', 'easter',
          'span']


def case_holiday(case, ctx, rng):
    from pandas.tseries import holiday as h
    from pandas.tseries.offsets import DateOffset, Day, Easter
    m = models.fm()
    l_h, l_f = [], []
    for _ in range(1 + rng.randint(3)):
        u = L_RULE[rng.randint(len(L_RULE))]
        mo, da = int(rng.randint(1, 13)), int(rng.randint(1, 29))
        if u == 'fixed':
            o = h.Holiday('a', month=mo, day=da)
            g = lambda y, mo=mo, da=da: [D(y, mo, da)]
        elif u in ('monday', 'montue', 'nearest'):
            obs, r = dict(monday=(h.next_monday, next_monday),
                          montue=(h.next_monday_or_tuesday, next_mon_or_tue),
                          nearest=(h.nearest_workday, nearest))[u]
            o = h.Holiday('a', month=mo, day=da, observance=obs)
            g = lambda y, mo=mo, da=da, r=r: [r(D(y, mo, da))]
        elif u == 'first':
            w = int(rng.randint(1, 5))
            o = h.Holiday('a', month=mo, day=1,
                          offset=DateOffset(weekday=h.MO(w)))
            g = lambda y, mo=mo, w=w: [nth(y, mo, 0, w)]
        elif u == 'last':
            o = h.Holiday('a', month=mo, day=gen.calendar.monthrange(
                2001, mo)[1], offset=DateOffset(weekday=h.FR(-1)))
            # last Friday until the last day (of a non leap year)
            g = lambda y, mo=mo: [max(
                d for d in [D(y, mo, k) for k in range(
                    1, gen.calendar.monthrange(2001, mo)[1] + 1)]
                if d.weekday() == 4)]
        elif u == 'easter':
            k = int(rng.randint(-60, 60))
            o = h.Holiday('a', month=1, day=1, offset=[Easter(), Day(k)])
            g = lambda y, k=k: [days(easter(y), k)]
        else:
            a = int(rng.randint(1985, 2040))
            o = h.Holiday('a', month=mo, day=da,
                          start_date=pd.Timestamp(a, 1, 1),
                          end_date=pd.Timestamp(a + 10, 12, 31))
            g = lambda y, mo=mo, da=da, a=a: \
                [D(y, mo, da)] if a <= y <= a + 10 else []
        l_h.append(o)
        l_f.append(lambda d, g=g: marked(g, d))
    u = rng.randint(3)
    if u == 0:
        for o, f in zip(l_h, l_f):
            examine(ctx, m.get_model_dummy('h', o), [f], window(rng), rng,
                    'holiday', 'holiday')
    elif u == 1:
        # one model per holiday, composed; same names
        mod = m.get_model_dummy('h', l_h[0])
        for o in l_h[1:]:
            mod = [mod + m.get_model_dummy('h', o),
                   mod * m.get_model_dummy('h', o)][0]
        d = window(rng)
        x = np.arange(len(d))
        p = rng.uniform(-2, 2, len(l_h))
        got = full(mod(x, pd.DatetimeIndex(d), p), len(d))
        want = expect(l_f, d, p, False)
        ctx.check(np.allclose(got, want), 'holiday', 'sum of dummies of {} '
                  'holidays: {} {}', len(l_h), got, want)
        ctx.hit('marked', int((want != 0).sum()))
        got = full(mod(x, pd.DatetimeIndex(d), p,
                       **mod.init_cache(x, pd.DatetimeIndex(d))), len(d))
        ctx.check(np.allclose(got, want), 'cache', 'sum of dummies of {} '
                  'holidays: {} {}', len(l_h), got, want)
    else:
        cal = h.AbstractHolidayCalendar(name='cal', rules=l_h)
        f = lambda d: any(g(d) for g in l_f)
        examine(ctx, m.get_model_from_calendars([cal]), [f], window(rng),
                rng, 'holiday', 'calendar of holidays')


def as_type(l, rng):
    u = rng.randint(7)
    if u == 0:
        return [str(d) for d in l]
    if u == 1:
        return [pd.Timestamp(d) for d in l]
    if u == 2:
        return pd.DatetimeIndex(l)
    if u == 3:
        return pd.Series(pd.DatetimeIndex(l), index=range(5, 5 + len(l)))
    if u == 4:
        return np.array(l, dtype='datetime64[ns]')
    if u == 5:
        return tuple(l)
    return list(l)


def some_dates(l, rng):
    s = [l[int(i)] for i in rng.randint(0, len(l), 1 + rng.randint(6))]
    # and others: out of range, close to a sample
    s += [days(s[0], 5000), days(s[0], -400),
          s[-1] + dt.timedelta(minutes=7)]
    return [s[i] for i in rng.permutation(len(s))]


def case_list(case, ctx, rng):
    m = models.fm()
    l = window(rng)
    s = some_dates(l, rng)
    examine(ctx, m.get_model_dummy('d', as_type(s, rng)),
            [lambda d: d in s], l, rng, 'list', 'dummy')
    if rng.rand() < .3:
        # list of instants, in the time zone of the samples
        z = ['Europe/London', 'US/Eastern', 'Asia/Tokyo', 'UTC'][
            rng.randint(4)]
        d = pd.DatetimeIndex(l).tz_localize(
            z, nonexistent='shift_forward', ambiguous=True)
        t = [q.tz_localize(z, nonexistent='shift_forward', ambiguous=True)
             for q in pd.DatetimeIndex(s)]
        x = np.arange(len(d)) * 1.
        want = np.array([float(any(q == v for v in t)) for q in d])
        got = full(m.get_model_dummy('z', t)(x, d, [1.]), len(d))
        ctx.check(np.array_equal(got, want), 'list_tz', 'list of dates in '
                  'time zone {} marks {} samples, {} expected', z,
                  got.sum(), want.sum())


def case_datelist(case, ctx, rng):
    m = models.fm()
    l = window(rng)
    l_s = [some_dates(l, rng) for _ in range(1 + rng.randint(4))]
    if len(l_s) > 1 and rng.rand() < .5:
        l_s[1] = l_s[0][:2]  # date in two lists
    mod = m.get_model_from_datelist('dl', *[as_type(s, rng) for s in l_s])
    ctx.check(mod.name == 'dl', 'list', 'name {}', mod.name)
    examine(ctx, mod, [lambda d, s=s: d in s for s in l_s], l, rng, 'list',
            'datelist{}'.format(len(l_s)))


def case_numbers(case, ctx, rng):
    m = models.fm()
    n = int(rng.randint(1, 200))
    x = np.arange(n) + int(rng.randint(-50, 50))
    if rng.rand() < .3:
        x = x[rng.permutation(n)]
    s = [int(v) for v in rng.choice(x, 1 + rng.randint(5))] + [9999, -777]
    if rng.rand() < .3:
        s = [float(v) for v in s] + [float(x[0]) + .5]
    l = [s, tuple(s), np.array(s), pd.Series(s, index=range(7, 7 + len(s)))]
    mod = m.get_model_dummy('n', l[rng.randint(4)])
    xx = x.astype(float) if rng.rand() < .5 else x
    d = None if rng.rand() < .6 else pd.date_range('2020-01-01', periods=n)
    for mult in (False, True):
        a = float(rng.uniform(-3, 3))
        want = np.array([(a + (1. if mult else 0.)) if float(v) in [
            float(t) for t in s] else float(mult) for v in x])
        got = full(mod(xx, d, [a], is_mult=mult), n)
        ctx.check(np.allclose(got, want), 'numbers', 'list of numbers {} for '
                  'x {}: {}, {} expected', s, x, got, want)
        ctx.hit('marked', int((want != float(mult)).sum()))
        k = int(rng.randint(n))
        g = full(mod(xx[k:k + 1], None if d is None else d[k:k + 1], [a],
                     is_mult=mult), 1)
        ctx.check(np.allclose(g, want[k]), 'window', 'x={} alone: {}, {} '
                  'expected', x[k], g, want[k])


COND = dict(
    weekend=(lambda a_x, a_date, **kwargs:
             (a_date.weekday >= 5).astype(float),
             lambda x, d: d.weekday() >= 5),
    december=(lambda a_x, a_date: (a_date.month == 12).astype(float),
              lambda x, d: d.month == 12),
    xmod3=(lambda a_x, a_date: (np.asarray(a_x) % 3 == 1).astype(float),
           lambda x, d: x % 3 == 1),
    both=(lambda a_x, a_date, **kwargs:
          ((a_date.day <= 7) & (np.asarray(a_x) > 10)).astype(float),
          lambda x, d: d.day <= 7 and x > 10))


def case_condition(case, ctx, rng):
    m = models.fm()
    k = sorted(COND)[rng.randint(len(COND))]
    f, ref = COND[k]
    mod = m.get_model_dummy(k, f)
    l = window(rng)
    x = np.array([(t - min(l)).days for t in l])
    d = pd.DatetimeIndex(l)
    a = float(rng.uniform(-3, 3))
    for mult in (False, True):
        want = np.array([(a + float(mult)) if ref(int(v), t) else float(mult)
                         for v, t in zip(x, l)])
        for kw in ({}, mod.init_cache(x, d)):
            got = full(mod(x, d, [a], is_mult=mult, **kw), len(l))
            ctx.check(np.allclose(got, want), 'condition', 'condition {}: {}, '
                      '{} expected', k, got, want)
        ctx.hit('marked', int((want != float(mult)).sum()))


def case_fit(case, ctx, rng):
    """Effects are fitted on marked dates and carried to future ones"""
    from anticipy import forecast
    m = models.fm()
    k = ['uk', 'ita', 'us'][rng.randint(3)]
    u = rng.randint(3)
    n = int(rng.randint(420, 900))
    st = dt.datetime(int(rng.randint(1990, 2040)), int(rng.randint(1, 13)),
                     int(rng.randint(1, 29)))
    l = [days(st, i) for i in range(n)]
    if u == 0:
        mod = getattr(m, 'model_calendar_' + k)
        l_f = [lambda d, f=f: marked(f, d) for f in CAL[k]]
    elif u == 1:
        l_s = [[l[int(i)] for i in rng.choice(n, 4, replace=False)] +
               [days(l[-1], int(i)) for i in rng.randint(1, 300, 3)]
               for _ in range(2)]
        mod = m.get_model_from_datelist('dl', *l_s)
        l_f = [lambda d, s=s: d in s for s in l_s]
    else:
        f = CAL[k][0]
        cal = m.get_model_from_calendars(
            [dict(uk=m.CalendarChristmasUK(), ita=m.CalendarChristmasIta(),
                  us=models_us())[k]])
        mod, l_f = cal, [lambda d: marked(f, d)]
    mult = bool(rng.rand() < .3)
    p = rng.uniform(.5, 1.5, len(l_f)) if mult else \
        rng.uniform(20, 60, len(l_f))
    fut = [days(l[-1], i + 1) for i in range(365)]
    eff = expect(l_f, l + fut, p, mult)
    x = np.arange(len(eff)) + st.weekday()
    base = 100 + .05 * x
    y = base * eff if mult else base + eff
    noise = .01 * gen.wiggle(len(eff))
    df = pd.DataFrame({'date': pd.DatetimeIndex(l), 'y': (y + noise)[:n]})
    if rng.rand() < .25:
        df['date'] = df['date'].dt.tz_localize('Asia/Tokyo')
    r = forecast.run_forecast(
        df, extrapolate_years=1, l_model_trend=[m.model_linear],
        l_model_season=[], l_model_naive=[], l_model_calendar=[mod],
        season_add_mult='mult' if mult else 'add', simplify_output=False,
        include_all_fits=True)
    if isinstance(r, dict):
        md, fc = r['metadata'], r['forecast']
    else:
        md, fc = r.df_metadata, r.df_data
    ctx.check(md.status.eq('FIT').any(), 'fit', 'no fit: {}', md)
    best = md.loc[md.is_best_fit].iloc[0]
    out = fc.loc[~fc.is_actuals & (fc.model == best.model)]
    v = out.drop_duplicates('date').set_index('date').y
    v.index = v.index.tz_localize(None)
    seen = 0
    l_known = [i for i, f in enumerate(l_f)
               if sum(f(d) and not any(g(d) for j, g in enumerate(l_f)
                                       if j != i) for d in l) >= 2]
    for i, d in enumerate(l + fut):
        # parameters of dates never seen are unknown
        if any(f(d) for j, f in enumerate(l_f) if j not in l_known):
            continue
        if eff[i] != float(mult):
            seen += i >= n
        ctx.check(abs(v.get(d, np.inf) - y[i]) < 1, 'fit', '{} {} at {}: '
                  'forecast {} but the series is {} with effect {} (model {})',
                  k, u, d, v.get(d), y[i], eff[i], best.model)
    ctx.hit('future_marked', seen)


def models_us():
    from pandas.tseries.holiday import USFederalHolidayCalendar
    return USFederalHolidayCalendar()
