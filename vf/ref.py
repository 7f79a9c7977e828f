"""Reference view of an input: samples used for fitting, x axis, grid"""
import numpy as np
import pandas as pd

from vf import gen


class Used:
    """Used samples of one source: x, y, weight, date arrays in time order.

    df: columns date or x, y, optional weight; start: first date or None"""

    def __init__(self, df, dated, start=None):
        d = df.copy()
        if dated:
            d['date'] = pd.to_datetime(d['date'])
            first = d['date'].min().to_pydatetime()
            d['x'] = [gen.x_of_date(t.to_pydatetime(), first)
                      for t in d['date']]
        key = 'date' if dated else 'x'
        d = d.sort_values(key, kind='stable')
        self.all = d
        if start is not None:
            d = d.loc[d[key] >= (pd.to_datetime(start) if dated else start)]
        self.last = d[key].max()
        self.in_range = d
        if 'weight' in d.columns:
            d = d.assign(weight=d['weight'].fillna(0.))
            d = d.loc[d['weight'] > 0]
        else:
            d = d.assign(weight=1.)
        self.first = d[key].min()
        self.x_first = d['x'].min() if len(d) else None
        d = d.loc[~d['y'].isnull()]
        self.df = d
        self.n = len(d)
        self.x = d['x'].values
        self.y = d['y'].values.astype(float)
        self.w = d['weight'].values.astype(float)
        self.date = pd.DatetimeIndex(d['date']) if dated else None
        self.key = d[key].values
        k = d.groupby('x')['x'].transform('size').values if len(d) else 1
        self.wk = self.w / k
        self.dated = dated
        self.x0 = self.all['x'].iloc[0]
        self.first_all = self.all[key].iloc[0]

    def x_of(self, l_date):
        """x axis for output dates"""
        if not self.dated:
            return np.asarray(l_date, float)
        f = self.first_all.to_pydatetime()
        return np.array([gen.x_of_date(pd.Timestamp(t).to_pydatetime(), f)
                         for t in l_date], float)


def add_weights(rng, df, p_zero=.3):
    n = len(df)
    df = df.copy()
    df['weight'] = np.round(rng.uniform(.2, 3, n), 3)
    if rng.rand() < p_zero and n > 6:
        i = rng.choice(n, max(1, n // 8), replace=False)
        df.loc[df.index[i], 'weight'] = 0.
    elif rng.rand() < .3:
        # Small weights count, too
        df['weight'] = df.weight * 10. ** -rng.randint(2, 7)
    return df


def add_nulls(rng, df):
    """Null values, never in the first or last samples"""
    n = len(df)
    df = df.copy()
    if n > 8:
        i = 2 + rng.choice(n - 4, max(1, n // 10), replace=False)
        df.loc[df.index[i], 'y'] = np.nan
    return df


def repeat_samples(rng, df):
    """Several values for some samples"""
    n = len(df)
    i = rng.choice(n, max(1, n // 4), replace=False)
    extra = df.iloc[np.repeat(i, rng.randint(1, 3, len(i)))].copy()
    # Some of the values are equal
    extra['y'] = extra['y'] + rng.normal(0, 1, len(extra)) * (
        rng.rand(len(extra)) < .65)
    return pd.concat([df, extra], ignore_index=True)
