"""Observation helpers shared by the monitors"""
import hashlib

import numpy as np
import pandas as pd


NOISE = 1e-6


def seed_lib(seed):
    np.random.seed(seed % (2 ** 32))


def run(df, seed=0, **kw):
    """Run the public forecast API from a fixed random state, full output"""
    from anticipy import forecast
    np.random.seed(seed % (2 ** 32))
    kw.setdefault('simplify_output', False)
    return forecast.run_forecast(df, **kw)


def df_hash(df):
    """Content hash of a dataframe/series: values, dtypes, index, names"""
    if df is None:
        return None
    if isinstance(df, pd.Series):
        df2 = df.to_frame('__s__')
    else:
        df2 = df
    h = hashlib.sha256()
    h.update(repr(list(map(str, df2.columns))).encode())
    h.update(repr([str(t) for t in df2.dtypes]).encode())
    h.update(repr(df2.index.names).encode())
    h.update(str(df2.index.dtype).encode())
    h.update(pd.util.hash_pandas_object(
        df2.astype({c: str for c in df2.columns
                    if df2[c].dtype == object}), index=True).values.tobytes())
    return h.hexdigest()


def num_close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def scale_of(*arrays):
    m = 1e-12
    for a in arrays:
        a = np.asarray(a, float)
        a = a[np.isfinite(a)]
        if a.size:
            m = max(m, float(np.abs(a).max()))
    return m


# Columns that hold wall-clock times, or function objects
L_VOLATILE = ['fit_time', 'model_obj']


def table_diff(a, b, rtol=0., ignore=(), atol_rel=1e-9):
    """None if two output tables match, else a description.

    rtol=0 requires exact equality. For results of fits use NOISE: numeric
    libraries may round differently from call to call (alignment of arrays),
    and the optimiser amplifies that"""
    if (a is None) != (b is None):
        return 'one table is None'
    if a is None:
        return None
    if rtol >= NOISE:
        atol_rel = max(atol_rel, .1 * NOISE)
        ignore = tuple(ignore) + ('params_str',)
        if len(a) == len(b) and 'cost' in a.columns and \
                'cost' in b.columns:
            # costs of perfect fits are all noise
            perfect = ((a['cost'].fillna(1.).values < 1e-10) &
                       (b['cost'].fillna(1.).values < 1e-10))
            if perfect.any():
                a, b = a.copy(), b.copy()
                for t in (a, b):
                    for c in ('cost', 'aic_c', 'optimality'):
                        if c in t.columns:
                            t[c] = t[c].mask(perfect, 0.)
    ca = [c for c in a.columns if c not in L_VOLATILE and c not in ignore]
    cb = [c for c in b.columns if c not in L_VOLATILE and c not in ignore]
    if sorted(ca) != sorted(cb):
        return 'columns {} vs {}'.format(ca, cb)
    if len(a) != len(b):
        return 'rows {} vs {}'.format(len(a), len(b))
    for c in ca:
        sa, sb = a[c].reset_index(drop=True), b[c].reset_index(drop=True)
        if c == 'params':
            for i, (p, q) in enumerate(zip(sa, sb)):
                if isinstance(p, str) or isinstance(q, str) \
                        or p is None or q is None:
                    if str(p) != str(q):
                        return 'params row {}: {} vs {}'.format(i, p, q)
                    continue
                p, q = np.asarray(p, float), np.asarray(q, float)
                if p.shape != q.shape:
                    return 'params row {}: {} vs {}'.format(i, p, q)
                if rtol == 0.:
                    ok = np.array_equal(p, q, equal_nan=True)
                else:
                    ok = num_close(p, q, rtol, atol_rel * (
                        max(1., np.abs(p).max()) if p.size and
                        rtol >= NOISE else 1.))
                if not ok:
                    return 'params row {}: {} vs {}'.format(i, p, q)
            continue
        if pd.api.types.is_float_dtype(sa) and \
                pd.api.types.is_float_dtype(sb) and rtol > 0:
            atol = atol_rel * scale_of(sa, sb)
            bad = ~np.isclose(sa.values, sb.values, rtol=rtol, atol=atol,
                              equal_nan=True)
            if bad.any():
                i = int(np.argmax(bad))
                return 'column {} row {}: {!r} vs {!r} ({} rows differ)'\
                    .format(c, i, sa[i], sb[i], int(bad.sum()))
        else:
            va, vb = sa.values, sb.values
            na, nb = pd.isnull(sa).values, pd.isnull(sb).values
            if not np.array_equal(na, nb):
                return 'column {}: null pattern differs'.format(c)
            if c == 'model' and sa.dtype == object:
                va, vb = sa.astype(str).values, sb.astype(str).values
            eq = (va == vb) | na
            if not np.all(eq):
                i = int(np.argmin(eq))
                return 'column {} row {}: {!r} vs {!r} ({} rows differ)'\
                    .format(c, i, sa[i], sb[i], int((~eq).sum()))
    return None


def dict_diff(a, b, rtol=0., ignore=(), tables=('forecast', 'data',
                                                'metadata')):
    for t in tables:
        d = table_diff(a[t], b[t], rtol, ignore)
        if d:
            return 'table {}: {}'.format(t, d)
    return None


def fdata(r, source=None, model=None):
    """Forecast (non actuals) rows of the data table"""
    d = r['data']
    m = ~d['is_actuals'].astype(bool)
    if source is not None:
        m &= d['source'] == source
    if model is not None:
        m &= d['model'] == model
    return d.loc[m]


def adata(r, source=None):
    d = r['data']
    m = d['is_actuals'].astype(bool)
    if source is not None:
        m &= d['source'] == source
    return d.loc[m]


def fc_rows(f, actuals=False):
    """Rows of the forecast table"""
    return f.loc[f['is_actuals'].astype(bool) == actuals]
