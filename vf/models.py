"""Model registry: independent formulas for the built-in models, random model
expressions, and random forecast options. All access to the code under test
is through public names of anticipy.forecast_models."""
import datetime as dt
import math

import numpy as np
import pandas as pd


def fm():
    from anticipy import forecast_models
    return forecast_models


# ---- Reference formulas: f(x, date, params, is_mult) for one sample -------

def _exp(v):
    return math.exp(v) if v < 709. else math.inf


def _hv(v):
    return 1.0 if v >= 0 else 0.0


def r_constant(x, d, p, m):
    return p[0]


def r_linear(x, d, p, m):
    return p[0] * x + p[1]


def r_quasilinear(x, d, p, m):
    return p[0] * float(np.float64(x) ** p[1]) + p[2]


def r_exp(x, d, p, m):
    return p[0] * float(np.float64(p[1]) ** float(x))


def r_decay(x, d, p, m):
    return p[0] * _exp(p[1] * x) + p[2]


def r_step(x, d, p, m):
    if x >= p[0]:
        return p[1]
    return 1.0 if m else 0.0


def r_two_steps(x, d, p, m):
    a, b = r_step(x, d, p[:2], m), r_step(x, d, p[2:], m)
    return a * b if m else a + b


def r_sigmoid(x, d, p, m):
    b, c, s = p
    a = 1.0 if m else 0.0
    return a + (b - a) / (1 + _exp(-s * (x - c)))


def r_ramp(x, d, p, m):
    y = (x - p[0]) * p[1] * _hv(x - p[0])
    return 1 + y if m else y


def r_spike(x, d, p, m):
    if p[1] <= x < p[2]:
        return p[0]
    return 1.0 if m else 0.0


def r_wday(x, d, p, m):
    w = d.weekday()
    if w == 0:
        return 1.0 if m else 0.0
    return p[w - 1]


def r_month(x, d, p, m):
    if d.month == 1:
        return 1.0 if m else 0.0
    return p[d.month - 2]


def r_fourier(x, d, p, m):
    t = (d.date() - dt.date(1970, 1, 1)).days
    k = 2 * math.pi / 365.25
    return sum(p[i] * math.sin(k * (i + 1) * t) +
               p[10 + i] * math.cos(k * (i + 1) * t) for i in range(10))


def _dummy(f):
    def r(x, d, p, m):
        v = p[0] * (1.0 if f(d) else 0.0)
        return v + 1 if m else v
    return r


REF = dict(
    constant=(1, r_constant), linear=(2, r_linear),
    linear_nondec=(2, r_linear), quasilinear=(3, r_quasilinear),
    exp=(2, r_exp), decay=(3, r_decay), step=(2, r_step),
    two_steps=(4, r_two_steps), sigmoid=(3, r_sigmoid),
    sigmoid_step=(3, r_sigmoid), ramp=(2, r_ramp), spike=(3, r_spike),
    season_wday=(6, r_wday), season_month=(11, r_month),
    season_month_old=(11, r_month), season_fourier_yearly=(20, r_fourier),
    season_wday_2=(1, _dummy(lambda d: d.weekday() < 5)),
    dummy_christmas=(1, _dummy(lambda d: d.month == 12 and d.day == 25)),
    dummy_month_start=(1, _dummy(lambda d: d.day == 1)),
)
NEED_DATE = {'season_wday', 'season_month', 'season_month_old',
             'season_fourier_yearly', 'season_wday_2', 'dummy_christmas',
             'dummy_month_start', 'calendar_uk', 'calendar_us',
             'calendar_ita'}
NO_DATE = [k for k in REF if k not in NEED_DATE]
# linear in their parameters
LINEAR = ['constant', 'linear', 'season_wday', 'season_month',
          'season_fourier_yearly', 'season_wday_2', 'dummy_month_start']


def get(name):
    """Model from a name or a nested expression ['+', a, b] / ['*', a, b],
    or a special: ['spike_date', d1, d2], ['step_date', d],
    ['datelist', [..]], ['fix', model, [..]]"""
    m = fm()
    if isinstance(name, str):
        return getattr(m, 'model_' + name)
    op = name[0]
    if op == '+':
        return get(name[1]) + get(name[2])
    if op == '*':
        return get(name[1]) * get(name[2])
    if op == 'spike_date':
        return m.get_model_spike_date(name[1], name[2])
    if op == 'step_date':
        return m.get_model_step_date(name[1])
    if op == 'datelist':
        return m.get_model_from_datelist(name[1], *name[2])
    if op == 'dummylist':
        return m.get_model_dummy(name[1], name[2])
    if op == 'fix':
        return m.fix_params_fmodel(get(name[1]), [
            np.nan if v is None else v for v in name[2]])
    raise ValueError(name)


def n_params(e):
    if isinstance(e, str):
        return 0 if e in ('null', 'naive', 'snaive_wday') else REF[e][0]
    if e[0] in '+*':
        return n_params(e[1]) + n_params(e[2])
    if e[0] in ('spike_date', 'step_date', 'dummylist'):
        return 1
    if e[0] == 'datelist':
        return len(e[2])
    if e[0] == 'fix':
        return sum(v is None for v in e[2])
    raise ValueError(e)


def is_null(e):
    if isinstance(e, str):
        return e == 'null'
    return e[0] in '+*' and is_null(e[1]) and is_null(e[2])


def ref_eval(e, x, d, p, m=False):
    """Reference value of a model expression for one sample"""
    if isinstance(e, str):
        if e == 'null':
            return 1.0 if m else 0.0
        return REF[e][1](x, d, p, m)
    if e[0] in '+*':
        if is_null(e[1]):
            return ref_eval(e[2], x, d, p, m)
        if is_null(e[2]):
            return ref_eval(e[1], x, d, p, m)
        n = n_params(e[1])
        mm = e[0] == '*'
        a = ref_eval(e[1], x, d, p[:n], mm)
        b = ref_eval(e[2], x, d, p[n:], mm)
        return a * b if mm else a + b
    if e[0] == 'spike_date':
        ins = pd.Timestamp(e[1]) <= d < pd.Timestamp(e[2])
        return p[0] if ins else (1.0 if m else 0.0)
    if e[0] == 'step_date':
        return p[0] if d >= pd.Timestamp(e[1]) else (1.0 if m else 0.0)
    if e[0] == 'dummylist':
        ins = d in [pd.Timestamp(v) for v in e[2]]
        return p[0] * ins + (1.0 if m else 0.0)
    if e[0] == 'datelist':
        v = [p[i] * (d in [pd.Timestamp(t) for t in l])
             for i, l in enumerate(e[2])]
        if len(v) == 1:
            return v[0] + (1.0 if m else 0.0)
        if m:
            return float(np.prod([1 + t for t in v]))
        return sum(v)
    if e[0] == 'fix':
        q, it = [], iter(p)
        for v in e[2]:
            q.append(next(it) if v is None else v)
        return ref_eval(e[1], x, d, q, m)
    raise ValueError(e)


def leaves(e):
    if isinstance(e, str):
        return [e]
    if e[0] in '+*':
        return leaves(e[1]) + leaves(e[2])
    return [e]


def needs_date(e):
    return any((not isinstance(v, str)) or v in NEED_DATE for v in leaves(e))


def expr_name(e):
    """Documented name of an expression"""
    if isinstance(e, str):
        return {'exp': 'exponential'}.get(e, e)
    if e[0] in '+*':
        if is_null(e[1]):
            return expr_name(e[2])
        if is_null(e[2]):
            return expr_name(e[1])
        return '({}{}{})'.format(expr_name(e[1]), e[0], expr_name(e[2]))
    return None


def rand_params(e, rng, x):
    """Random parameters of reasonable magnitude, per leaf"""
    x = np.asarray(x, float)
    lo, hi = float(x.min()), float(x.max())
    out = []
    for v in leaves(e):
        if not isinstance(v, str) and v[0] == 'fix':
            q = rand_params(v[1], rng, x)
            out += [t for t, f in zip(q, v[2]) if f is None]
            continue
        if not isinstance(v, str):
            out += list(rng.uniform(-3, 3, n_params(v)))
            continue
        n = n_params(v)
        p = list(rng.uniform(-2, 2, n))
        if v == 'exp':
            p = [rng.uniform(-5, 5), rng.uniform(.97, 1.03)]
        elif v == 'quasilinear':
            p = [rng.uniform(-2, 2), rng.uniform(.1, 1.5), rng.uniform(-5, 5)]
        elif v == 'decay':
            p = [rng.uniform(-5, 5), rng.uniform(-.1, 0), rng.uniform(-5, 5)]
        elif v in ('step', 'ramp'):
            p = [rng.uniform(lo, hi), rng.uniform(-3, 3)]
            if rng.rand() < .3:
                p[0] = float(x[rng.randint(len(x))])
        elif v == 'two_steps':
            p = [rng.uniform(lo, hi), 2., rng.uniform(lo, hi), -3.]
        elif v == 'spike':
            a, b = sorted(x[rng.randint(0, len(x), 2)])
            p = [rng.uniform(-3, 3), float(a), float(b)]
        elif v in ('sigmoid', 'sigmoid_step'):
            p = [rng.uniform(-3, 3), rng.uniform(lo, hi), rng.uniform(0, .5)]
        out += [float(t) for t in p]
    return out


def rand_expr(rng, depth=2, dated=True, pool=None, null=.08):
    """Random model expression"""
    if pool is None:
        pool = sorted(REF) if dated else sorted(NO_DATE)
    if depth == 0 or rng.rand() < .25:
        if rng.rand() < null:
            return 'null'
        return pool[rng.randint(len(pool))]
    return ['+*'[rng.randint(2)], rand_expr(rng, depth - 1, dated, pool, null),
            rand_expr(rng, depth - 1, dated, pool, null)]


# ---- Random options of run_forecast ---------------------------------------

L_TREND = ['linear', 'constant', ['+', 'linear', 'ramp'], 'linear_nondec',
           'ramp', ['+', 'constant', 'step'], 'exp', 'sigmoid_step']
L_SEASON = ['season_wday', 'season_month', 'season_wday_2', 'null',
            'dummy_month_start', 'season_fourier_yearly']


def rand_options(rng, dated, simple=False):
    """JSON-able description of run_forecast options"""
    o = dict(extrapolate_years=float(
        [0, .05, .1, .27, .5, 1.][rng.randint(6)]))
    o['include_all_fits'] = bool(rng.rand() < .5)
    if rng.rand() < .5:
        k = 1 + rng.randint(2)
        o['trend'] = [L_TREND[i] for i in
                      rng.choice(len(L_TREND), k, replace=False)]
    if rng.rand() < .35:
        if rng.rand() < .4 or not dated:
            o['season'] = []
        else:
            k = 1 + rng.randint(2)
            o['season'] = [L_SEASON[i] for i in
                           rng.choice(len(L_SEASON), k, replace=False)]
    o['season_add_mult'] = ['add', 'mult', 'both', 'auto'][rng.randint(4)]
    if rng.rand() < .3:
        o['naive'] = [[], ['naive']][rng.randint(2)] if not dated else \
            [[], ['naive'], ['snaive_wday'], ['naive', 'snaive_wday']][
                rng.randint(4)]
        if not o['naive'] and o.get('trend') == []:
            o['naive'] = ['naive']
    if dated and rng.rand() < .15:
        o['calendar'] = [['calendar_uk'], ['calendar_us'],
                         ['calendar_ita', 'null']][rng.randint(3)]
    if rng.rand() < .3:
        o['pi_q1'], o['pi_q2'] = [(5, 20), (10, 30), (1, 49), (2, 25)][
            rng.randint(4)]
    if rng.rand() < .3:
        o['pi_widening_freq'] = ['Y', 'Q', 'M', 'W', 'D'][rng.randint(5)]
    if rng.rand() < .15:
        o['n_cum'] = int([1, 3, 30][rng.randint(3)])
    if rng.rand() < .2:
        o['use_cache'] = False
    return o


def kwargs(o):
    """run_forecast arguments from a description of options"""
    kw = {}
    for k, v in o.items():
        if k in ('trend', 'season', 'naive', 'calendar'):
            kw['l_model_' + k] = [get(e) for e in v]
        else:
            kw[k] = v
    return kw


def slow(key, y, name='slow'):
    """User model, closest of all candidates to these samples, but the
    optimiser never gets there: error falls with log(parameter)"""
    lookup = pd.Series(np.asarray(y, float), index=pd.Index(key))
    size = 1e-3 * max(float(np.nanmax(np.abs(lookup))), 1e-9)

    def f(a_x, a_date, params, is_mult=False, **kwargs):
        k = a_x if a_date is None or not isinstance(
            a_date, pd.DatetimeIndex) else a_date
        p = params[0]
        return lookup.reindex(pd.Index(k)).fillna(0.).values + \
            size / np.log(np.e + p * p)
    return fm().ForecastModel(name, 1, f)
