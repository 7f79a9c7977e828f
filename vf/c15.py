"""C15 - model functions compute their documented formulas, purely.

Oracle: independent formulas, sample by sample, in plain Python (vf/models.py).
Monitors: same result alone and within ranges, in any order, with and without
cached values, in every call and thread; arguments unchanged.
"""
import copy
import datetime as dt
import sys
import threading

import numpy as np
import pandas as pd

from vf import gen, models

PROPERTY = 'C15'
RULE = ('every built-in model, models from dates, and random compositions, '
        'additive and multiplicative, for random and extreme parameters, x '
        'and dates of 1-400 samples over 1950-2060 in several steps and '
        'orders, int and float x, list and array parameters; evaluation from '
        '8 threads with forced switches; non-trivial when values were '
        'compared with the formula')
FLOORS = {'formula': 4000, 'values': 100000, 'pointwise': 4000,
          'order': 2000, 'arguments': 4000, 'repeat': 4000, 'cache': 500,
          'thread_values': 5000, 'twin': 2500}
SPECIAL = ['spike_date', 'step_date', 'dummylist', 'datelist', 'fix']


def cases(tier, seed):
    n = dict(quick=60, thorough=900)[tier]
    l = [dict(kind='leaf', model=k, seed=seed * 7013 + i)
         for k in sorted(models.REF) for i in range(n // 4)]
    l += [dict(kind=k, seed=seed * 7013 + i) for i in range(n * 6)
          for k in ('expr', 'special')]
    l += [dict(kind='threads', seed=seed * 7013 + i) for i in range(n // 3)]
    return l


def rand_dates(rng, n):
    """Sorted dates, x as int days"""
    y = int(rng.randint(1950, 2060)) if rng.rand() < .5 else \
        int(rng.randint(2000, 2030))
    freq = ['D', 'D', 'W', 'H', 'MS', 'M', 'QS', 'Y'][rng.randint(8)]
    st = dt.datetime(y, int(rng.randint(1, 13)), int(rng.randint(1, 29)))
    if freq in ('MS', 'QS'):
        st = st.replace(day=1)
    n = min(n, 60) if freq in ('QS', 'Y') else n
    l = [gen.grid(freq, st, k) for k in range(n)]
    x = np.array([gen.x_of_date(d, l[0]) for d in l])
    return freq, x, l


def rand_x(rng, n, dated):
    if dated:
        return rand_dates(rng, n)
    x0 = int([0, 1, 0, 50, -20, 1000][rng.randint(6)])
    return None, np.arange(x0, x0 + n), None


def reference(e, x, l_date, p, m):
    return np.array([models.ref_eval(
        e, float(x[i]), None if l_date is None else l_date[i], p, m)
        for i in range(len(x))], float)


def full(v, n):
    v = np.asarray(v, float)
    return np.full(n, float(v)) if v.ndim == 0 else v


def close(a, b, scale):
    with np.errstate(all='ignore'):
        return a.shape == b.shape and bool(np.all(
            (a == b) | (np.abs(a - b) <= 1e-9 * np.abs(b) + 1e-11 * scale) |
            (np.isnan(a) & np.isnan(b)) |
            # both overflow
            ((np.abs(a) > 1e300) & (np.abs(b) > 1e300))))


def scale_of(e, x, l_date, p, m, want):
    s = np.abs(np.asarray(p, float)).max() if len(p) else 1.
    w = np.abs(want[np.isfinite(want)])
    return max(1., s * max(1., np.abs(x).max()), w.max() if len(w) else 1.)


def examine(ctx, m, e, x, l_date, p, mult, rng):
    n = len(x)
    date = None if l_date is None else pd.DatetimeIndex(l_date)
    want = reference(e, x, l_date, p, mult)
    pa = np.array(p, float)
    x2, p2 = x.copy(), pa.copy()
    d2 = None if date is None else date.copy()
    got = full(m(x, date, pa, is_mult=mult), n)
    sc = scale_of(e, x, l_date, p, mult, want)
    if not np.isfinite(want).all():
        ctx.hit('overflow')
    ctx.check(got.shape == (n,), 'formula', '{}: {} values for {} samples',
              e, got.shape, n)
    i = int(np.argmax(~np.isclose(got, want, equal_nan=True)))
    ctx.check(close(got, want, sc), 'formula', '{} with parameters {} mult '
              '{}: {} at x={} date={}, the formula gives {}', e, p, mult,
              got[i], x[i], None if l_date is None else l_date[i], want[i])
    ctx.hit('values', n)
    ctx.check(np.array_equal(x, x2) and x.dtype == x2.dtype and
              np.array_equal(pa, p2) and
              (date is None or date.equals(d2)), 'arguments',
              '{} changed its arguments', e)
    # every call; lists of parameters; the function itself
    for f, q in ((m, pa), (m, list(p)), (m.f_model, pa)):
        ctx.check(close(full(f(x, date, q, is_mult=mult), n), got, sc),
                  'repeat',
                  '{} differs when called again', e)
    if not mult:
        ctx.check(close(full(m(x, date, pa), n), got, sc),
                  'default_additive',
                  '{} is not additive by default', e)
    # sample alone, sub range, permutation, strided view
    for k in ([int(rng.randint(n))], [0], [n - 1],
              list(range(n // 3, max(n // 3 + 1, 2 * n // 3))),
              list(rng.permutation(n)),
              list(range(n))[::-1], list(rng.randint(0, n, 5))):
        g = full(m(x[k], None if date is None else date[k], pa,
                   is_mult=mult), len(k))
        mon = 'order' if len(k) == n else 'pointwise'
        ctx.check(close(g, got[k], sc), mon, '{} with parameters {} mult {}: '
                  'values for part of the range differ: {} {}', e, p, mult,
                  g[:5], got[k][:5])
    # integer or float x
    g = full(m(x.astype(float), date, pa, is_mult=mult), n)
    ctx.check(close(g, got, sc), 'dtype', '{} differs for float x', e)
    # cached values
    c = m.init_cache(x, date) if date is not None else {}
    if c:
        c2 = copy.deepcopy(c)
        g = full(m(x, date, pa, is_mult=mult, **c), n)
        ctx.check(close(g, got, sc), 'cache', '{} differs with cached '
                  'values', e)
        ctx.check(all(np.array_equal(np.asarray(c[k]), np.asarray(c2[k]))
                      for k in c2), 'cache', '{} changed cached values', e)
    ctx.check(close(full(m(x, date, pa, is_mult=mult), n), got, sc), 'repeat',
              '{} depends on earlier calls', e)
    # twins: other dates with the same length, first, last date
    if n < 7 or date is None or any(k in str(e) for k in SPECIAL):
        return
    l_twin = [[l_date[0]] + [d + dt.timedelta(1) for d in l_date[1:]],
              [l_date[0]] + list(l_date[1:-1])[::-1] + [l_date[-1]],
              [d - dt.timedelta(364) for d in l_date[:-1]] + [l_date[-1]]]
    t = l_twin[int(rng.randint(3))]
    if any(d < dt.datetime(1900, 1, 1) for d in t):
        return
    tw = reference(e, x, t, p, mult)
    td = pd.DatetimeIndex(t)
    ts = scale_of(e, x, t, p, mult, tw)
    m.init_cache(x, date)
    g = full(m(x, td, pa, is_mult=mult), n)
    ctx.check(close(g, tw, ts), 'twin', '{} with parameters {} mult {}: '
              'other values than the formula, after a call with other dates',
              e, p, mult)
    g = full(m(x, td, pa, is_mult=mult, **m.init_cache(x, td)), n)
    ctx.check(close(g, tw, ts), 'twin', '{} with parameters {} mult {}: '
              'other cached values than the formula, after a call with other '
              'dates', e, p, mult)


def params(e, rng, x):
    p = models.rand_params(e, rng, x)
    u = rng.rand()
    if u < .12:
        p = [v * 1e4 for v in p]
    elif u < .18:
        p = [0.] * len(p)
    elif u < .24:
        p = [float(np.round(v)) for v in p]
    elif u < .3:
        p = [-v for v in p]
    return p


def special(rng, l_date):
    l = sorted(set(d for d in l_date))
    d = [str(l[int(rng.randint(len(l)))]) for _ in range(4)]
    k = SPECIAL[rng.randint(5)]
    if k == 'spike_date':
        a, b = sorted(d[:2], key=pd.Timestamp)
        return [k, a, b]
    if k == 'step_date':
        return [k, d[0]]
    if k == 'dummylist':
        return [k, 'dd', d]
    if k == 'datelist':
        return [k, 'dl', [d[:2], d[2:]] if rng.rand() < .6 else [d]]
    e = sorted(models.REF)[rng.randint(len(models.REF))]
    x = np.arange(50)
    p = models.rand_params(e, rng, x)
    return ['fix', e, [None if rng.rand() < .5 else v for v in p]]


def usable(e, x, p):
    """Parameters for which the formula is defined"""
    if (x < 0).any() and 'quasilinear' in str(e):
        return False
    if (x == 0).any() and 'quasilinear' in str(e) and min(list(p) + [0]) < 0:
        return False
    # negative base of an exponential model
    return not ('exp' in str(e) and min(list(p) + [0]) < 0)


def run_case(case, ctx):
    rng = gen.rng_of('c15', case['kind'], case.get('model'), case['seed'])
    if case['kind'] == 'threads':
        return threads(ctx, rng)
    for _ in range(6):
        n = int([1, 2, 7, 30, 100, 400][rng.randint(6)])
        if case['kind'] == 'leaf':
            e = case['model']
            dated = e in models.NEED_DATE or rng.rand() < .5
        elif case['kind'] == 'expr':
            dated = rng.rand() < .7
            e = models.rand_expr(rng, int(rng.randint(1, 4)), dated)
        else:
            dated = True
        freq, x, l_date = rand_x(rng, n, dated)
        if case['kind'] == 'special':
            e = special(rng, l_date)
            if rng.rand() < .4:
                e = ['+*'[rng.randint(2)], e,
                     models.rand_expr(rng, 1, True)]
        p = params(e, rng, x)
        if not usable(e, x, p):
            p = [abs(v) for v in p]
        if not usable(e, x, p) or ('fix' in str(e) and
                                   not usable(e, x, [-1.])):
            ctx.hit('undefined')
            continue
        m = models.get(e)
        if m.n_params != len(p):
            ctx.check(False, 'n_params', '{} has {} parameters, not {}', e,
                      m.n_params, len(p))
        for mult in (False, True):
            examine(ctx, m, e, x, l_date, p, mult, rng)
        ctx.state(case['kind'], case.get('model'), freq, n)


def threads(ctx, rng):
    """The same and different models evaluated concurrently"""
    l_job = []
    for _ in range(8):
        dated = True
        freq, x, l_date = rand_x(rng, 60, dated)
        date = pd.DatetimeIndex(l_date)
        l_e = [sorted(models.REF)[i] for i in
               rng.choice(len(models.REF), 4, replace=False)]
        l_e += [models.rand_expr(rng, 2, True), special(rng, l_date)]
        job = []
        for e in l_e:
            p = [abs(v) for v in models.rand_params(e, rng, x)]
            mult = bool(rng.rand() < .5)
            if 'fix' in str(e) and not usable(e, x, [-1.]):
                continue
            job.append((e, models.get(e), x, date, np.array(p), mult,
                        reference(e, x, l_date, p, mult),
                        scale_of(e, x, l_date, p, mult,
                                 reference(e, x, l_date, p, mult))))
        l_job.append(job)
    l_bad = []
    count = [0] * 8
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    barrier = threading.Barrier(8)

    def work(k):
        try:
            barrier.wait(30)
            for rep in range(4):
                # threads visit the jobs in different orders
                for j in np.roll(np.arange(8), k * (rep % 2)):
                    for e, m, x, date, p, mult, want, sc in l_job[j]:
                        got = full(m(x, date, p, is_mult=mult), len(x))
                        count[k] += 1
                        if not close(got, want, sc):
                            l_bad.append((e, p, mult))
        except BaseException as ex:
            l_bad.append(repr(ex))

    try:
        l_t = [threading.Thread(target=work, args=(k,)) for k in range(8)]
        for t in l_t:
            t.start()
        for t in l_t:
            t.join()
    finally:
        sys.setswitchinterval(old)
    ctx.hit('thread_values', sum(count))
    ctx.check(not l_bad, 'threads', 'results differ in threads: {}',
              l_bad[:3])
