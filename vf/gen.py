"""Workload generators and date arithmetic.

Everything here is independent of the code under test: frequencies, grids and
x axes are computed with the standard library only, so that they can be used
as ground truth.
"""
import calendar
import datetime as dt
import math

import numpy as np
import pandas as pd

WDAY = ['MON', 'TUE', 'WED', 'THU', 'FRI', 'SAT', 'SUN']
MON = ['JAN', 'FEB', 'MAR', 'APR', 'MAY', 'JUN', 'JUL', 'AUG', 'SEP', 'OCT',
       'NOV', 'DEC']
PER_YEAR = dict(D=365, W=52, MS=12, M=12, QS=4, Q=4, YS=1, Y=1, H=8760)
L_FREQ = ['D', 'W', 'MS', 'M', 'QS', 'Q', 'YS', 'Y', 'H']


def rng_of(*parts):
    from vf.core import stable_seed
    return np.random.RandomState(stable_seed(*parts))


def _month_add(y, m, k):
    i = y * 12 + (m - 1) + k
    return i // 12, i % 12 + 1


def grid(freq, start, k):
    """k-th timestamp of a date grid that starts at start (a datetime)"""
    if freq == 'D':
        return start + dt.timedelta(days=k)
    if freq == 'W':
        return start + dt.timedelta(days=7 * k)
    if freq == 'H':
        return start + dt.timedelta(hours=k)
    step = {'M': 1, 'Q': 3, 'Y': 12}[freq[0]]
    y, m = _month_add(start.year, start.month, step * k)
    if freq.endswith('S'):
        return dt.datetime(y, m, 1)
    return dt.datetime(y, m, calendar.monthrange(y, m)[1])


def grid_start(freq, rng):
    """A random valid first timestamp for a frequency"""
    y = int(rng.randint(1995, 2035))
    m = int(rng.randint(1, 13))
    d = int(rng.randint(1, 29))
    if freq in ('D', 'W', 'H'):
        if freq == 'D' and rng.rand() < .3:  # around leap days, year ends
            return [dt.datetime(2016, 2, 25), dt.datetime(2019, 12, 27),
                    dt.datetime(2000, 2, 28), dt.datetime(2015, 12, 31),
                    dt.datetime(2017, 1, 1)][rng.randint(5)]
        return dt.datetime(y, m, d)
    if freq.endswith('S'):
        return dt.datetime(y, m, 1)
    return dt.datetime(y, m, calendar.monthrange(y, m)[1])


def freq_label(freq, start):
    """Name of a frequency for the library, given the first timestamp"""
    if freq == 'W':
        return 'W-' + WDAY[start.weekday()]
    if freq in ('D', 'H', 'MS', 'M'):
        return freq
    if freq == 'YS':
        return 'YS' if start.month == 1 else 'AS-' + MON[start.month - 1]
    if freq == 'Y':
        return 'Y' if start.month == 12 else 'A-' + MON[start.month - 1]
    if freq == 'QS':
        return {1: 'QS', 2: 'QS-FEB', 0: 'QS-MAR'}[start.month % 3]
    if freq == 'Q':
        return {0: 'Q', 1: 'Q-JAN', 2: 'Q-FEB'}[start.month % 3]


def n_future(freq, years):
    """Documented number of samples after the last actuals, rounded down"""
    per_year = 100 if freq is None else PER_YEAR[freq]
    return int(math.floor(round(years * per_year, 6)))


def dates(freq, start, n):
    return [grid(freq, start, k) for k in range(n)]


def x_of_date(date, first):
    """Documented x axis: days since Monday of the week of the first date"""
    monday = first.date() - dt.timedelta(days=first.weekday())
    return (date.date() - monday).days


def wiggle(n, k=0):
    """Deterministic noise with zero-ish mean, no exact structure"""
    i = np.arange(n)
    return (np.sin(1.7 * i + k) + np.sin(0.61 * i * i + 2 * k)
            + np.cos(2.9 * i + 0.3 * k)) / 3


L_SHAPE = ['linear', 'noise', 'walk', 'season', 'constant', 'exp', 'steps',
           'spikes', 'mult', 'trendseason']


def values(shape, n, rng, positive=False, t=None):
    """Sample values with a given shape. t: days from start, for season"""
    i = np.arange(n)
    if t is None:
        t = i
    t = np.asarray(t, float)
    level = rng.uniform(50, 150)
    noise = rng.normal(0, 1, n)
    if shape == 'linear':
        y = level + rng.uniform(-.3, .5) * i + noise * .5
    elif shape == 'noise':
        y = level + noise * 8
    elif shape == 'walk':
        y = level + np.cumsum(noise)
    elif shape == 'season':
        y = level + 10 * np.sin(2 * np.pi * t / 365.25) + \
            5 * (t % 7 == 3) + noise * .5
    elif shape == 'constant':
        y = np.full(n, np.round(level, 2))
    elif shape == 'exp':
        y = level * np.exp(rng.uniform(-.01, .01) * i) + noise * .5
    elif shape == 'steps':
        y = level + 20. * (i >= n // 2) - 30. * (i >= 3 * n // 4) + noise * .3
    elif shape == 'spikes':
        y = level + noise * .5
        if n > 4:
            y[rng.randint(1, n - 1)] += 60
            y[rng.randint(1, n - 1)] -= 45
    elif shape == 'mult':
        y = (level + .5 * i) * (1 + .2 * np.sin(2 * np.pi * t / 91.)
                                + .05 * noise)
    elif shape == 'trendseason':
        y = level + .2 * i + 15 * np.cos(2 * np.pi * t / 365.25) + \
            3 * ((t % 7) < 2) + noise
    else:
        raise ValueError(shape)
    if positive:
        y = np.abs(y) + 1
    return np.round(y, 6)


def typical_n(freq, rng, big=False):
    lo, hi = dict(D=(12, 90), W=(8, 70), H=(8, 60), MS=(6, 40), M=(6, 40),
                  QS=(6, 24), Q=(6, 24), YS=(6, 14), Y=(6, 14))[freq]
    if big:
        lo, hi = dict(D=(370, 900), W=(110, 170), H=(100, 400)).get(
            freq, (lo, hi))
    return int(rng.randint(lo, hi))


class Series:
    """A generated time series, with its ground truth"""

    def __init__(self, freq, start, n, shape, rng, keep=None, y=None,
                 x0=0):
        self.freq, self.start, self.n, self.shape = freq, start, n, shape
        self.label = None
        if freq is None:
            self.grid = list(range(x0, x0 + n))
            t = np.arange(n)
        else:
            self.grid = dates(freq, start, n)
            self.label = freq_label(freq, start)
            t = np.array([(d - start).days for d in self.grid])
        self.y = values(shape, n, rng, t=t) if y is None else np.asarray(y)
        self.keep = np.full(n, True) if keep is None else keep

    def df(self, col='date', name_y='y'):
        g = [d for d, k in zip(self.grid, self.keep) if k]
        y = self.y[self.keep]
        if self.freq is None:
            return pd.DataFrame({'x': g, name_y: y})
        return pd.DataFrame({col: pd.to_datetime(g), name_y: y})

    def df_index(self):
        d = self.df()
        if self.freq is None:
            return d.set_index('x')
        return d.set_index('date')


def gap_mask(freq, n, rng, share=.15):
    """Keep mask with gaps in the middle, that leaves the smallest step of
    the grid observable in a few places"""
    keep = rng.rand(n) > share
    keep[0] = keep[-1] = True
    keep[:3] = True
    keep[n // 2:n // 2 + 3] = True
    if freq in ('M', 'MS', 'Q', 'QS', 'Y', 'YS'):
        # keep at least a whole year of samples together
        k = {'M': 12, 'Q': 5, 'Y': 3}[freq[0]]
        keep[:min(k, n)] = True
    return keep


def make_series(rng, freq='any', n=None, shape=None, big=False, gaps=False):
    if freq == 'any':
        freq = [None, 'D', 'D', 'W', 'W', 'MS', 'M', 'QS', 'Q', 'YS', 'Y',
                'H'][rng.randint(12)]
    if shape is None:
        shape = L_SHAPE[rng.randint(len(L_SHAPE))]
    if n is None:
        n = typical_n(freq, rng, big) if freq else int(rng.randint(8, 60))
    if freq is None:
        s = Series(None, None, n, shape, rng,
                   x0=int([0, 0, 7, 100, -5][rng.randint(5)]))
    else:
        s = Series(freq, grid_start(freq, rng), n, shape, rng)
    if gaps:
        s.keep = gap_mask(freq, n, rng)
    return s
