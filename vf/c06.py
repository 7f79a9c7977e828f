"""C06 - every candidate gets exactly one truthful status.

Oracle: expected candidate names and statuses derived from the request and
the number of used samples, compared with the metadata and data tables.
"""
import numpy as np
import pandas as pd

from vf import gen, models, obs, ref

PROPERTY = 'C06'
RULE = ('series with lengths around the threshold of each candidate, with '
        'weights, nulls, start dates and several sources, random candidate '
        'sets including models that reject the input or never converge; '
        'non-trivial when statuses of candidates were compared')
FLOORS = {'status': 300, 'each_candidate_once': 100, 'too_short': 60,
          'input_rejected': 20, 'empty': 10, 'fitted': 100,
          'no_fit': 5, 'gave_up': 5, 'independent': 20, 'repeated': 15}

POOL = ['linear', 'constant', 'linear_nondec', 'ramp', 'decay',
        ['+', 'linear', 'ramp'], ['+', 'constant', 'step']]
SEASON = ['season_wday', 'season_wday_2', 'null', 'season_month',
          'season_fourier_yearly', ['+', 'season_wday', 'season_wday_2']]


def cases(tier, seed):
    n = dict(quick=260, thorough=4500)[tier]
    l = []
    for e in POOL + [['+', 'linear', q] for q in SEASON[:2]]:
        for extra in (-2, -1, 0, 1, 2, 3):
            l.append(dict(kind='threshold', e=e, extra=extra, seed=0))
    for i in range(n):
        l.append(dict(kind=['mix', 'mix', 'mix', 'fault'][i % 4],
                      seed=seed * 100003 + i))
    return l


def expected_status(e, u, dated):
    k = models.n_params(e)
    if u.n == 0:
        return 'EMPTY_TS'
    if u.n < k + 2:
        return 'TS_TOO_SHORT'
    lv = models.leaves(e)
    if 'season_wday' in lv and (
            not dated or len(set(u.date.weekday)) < 7):
        return 'INPUT_ERR'
    if 'ramp' in lv and len(set(u.x)) < 4:
        return 'INPUT_ERR'
    if 'decay' in lv and (u.y <= 0).any():
        return 'INPUT_ERR'
    return 'FIT'


def run_case(case, ctx):
    rng = gen.rng_of('c06', case['kind'], str(case.get('e')), case.get(
        'extra'), case['seed'])
    kind = case['kind']
    n_src = 1
    if kind == 'threshold':
        e = case['e']
        n = models.n_params(e) + 2 + case['extra']
        freq = 'D'
        l_e, l_s, l_n, am = [e], [], ['naive'], 'add'
        l_df = [gen.Series('D', gen.grid_start('D', rng), max(n, 1), 'noise',
                           rng).df()]
    else:
        freq = [None, 'D', 'D', 'W', 'MS'][rng.randint(5)]
        n_src = int([1, 1, 2, 3][rng.randint(4)])
        l_e = [POOL[i] for i in rng.choice(len(POOL), 1 + rng.randint(3),
                                           replace=False)]
        l_s = []
        if freq is not None and rng.rand() < .6:
            l_s = [SEASON[i] for i in rng.choice(
                len(SEASON), 1 + rng.randint(2), replace=False)]
            if freq == 'MS':
                l_s = [q for q in l_s if q != 'season_fourier_yearly']
        l_n = [[], ['naive'], ['naive'], ['naive', 'snaive_wday'] if
               freq == 'D' else ['naive']][rng.randint(4)]
        am = ['add', 'mult', 'both'][rng.randint(3)]
        l_df = []
        for i in range(n_src):
            n = int([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 20, 30][
                rng.randint(14)])
            s = gen.make_series(rng, freq, n=n)
            d = s.df()
            if rng.rand() < .2:
                d['y'] = -d['y']
            d['weight'] = 1.
            if rng.rand() < .3:
                d.loc[rng.rand(n) < .3, 'weight'] = 0.
            if rng.rand() < .2:
                d.loc[rng.rand(n) < .3, 'y'] = np.nan
            if rng.rand() < .08:
                d['weight'] = 0.
            if rng.rand() < .2:
                # several samples per date
                d = d.iloc[np.repeat(np.arange(n), rng.randint(2, 5))]
                d = d.assign(y=d.y + rng.normal(0, 1, len(d)) * (
                    rng.rand(len(d)) < .7)).reset_index(drop=True)
                ctx.hit('repeated')
            l_df.append(d)
    dated = freq is not None
    exprs = []
    if l_s:
        for op in dict(add='+', mult='*', both='+*')[am]:
            exprs += [[op, t, q] for t in l_e for q in l_s]
    else:
        exprs = list(l_e)
    d_expr = {}
    for e in exprs + l_n:
        d_expr[models.expr_name(e)] = e
    if n_src > 1:
        df = pd.concat([d.assign(source='s%d' % i)
                        for i, d in enumerate(l_df)], ignore_index=True)
    else:
        df = l_df[0]
    start = None
    if kind == 'mix' and rng.rand() < .2:
        key = 'date' if dated else 'x'
        start = df[key].sort_values().iloc[len(df) // 3]
    opt = dict(trend=l_e, season=l_s, naive=l_n, season_add_mult=am,
               extrapolate_years=.1)
    kw = models.kwargs(opt)
    bad = None
    if kind == 'fault':
        from anticipy.forecast_models import ForecastModel

        def f_bad(a_x, a_date, params, is_mult=False, **kwargs):
            raise np.linalg.LinAlgError('injected')
        bad = ForecastModel('aa_bad' if rng.rand() < .5 else 'zz_bad', 2,
                            f_bad)
        if l_s:
            # a fault in a naive slot is not composed with seasons
            kw['l_model_naive'] = kw['l_model_naive'] + [bad]
        else:
            kw['l_model_trend'] = kw['l_model_trend'] + [bad]
    if not l_s and rng.rand() < .3:
        # user models whose long names differ at the end, or in case
        from anticipy.forecast_models import ForecastModel

        def f_const(a_x, a_date, params, is_mult=False, **kwargs):
            return np.full(len(a_x), params[0])
        for name in ['my_' + 'long_' * 40 + 'a', 'my_' + 'long_' * 40 + 'b',
                     'LINEAR', 'null2', 'linear ']:
            d_expr[name] = 'constant'
            kw['l_model_trend'] = kw['l_model_trend'] + [
                ForecastModel(name, 1, f_const)]
        ctx.hit('similar_names')
    r = obs.run(df, seed=case['seed'], include_all_fits=True,
                date_start_actuals=start, **kw)
    md = r['metadata']
    names = set(d_expr) | ({bad.name} if bad is not None else set())
    for i, d in enumerate(l_df):
        src = 's%d' % i if n_src > 1 else 'src'
        m = md.loc[md.source == src]
        u = ref.Used(d, dated, start)
        got = [s.split('_fixed_')[0] for s in m.model]
        ctx.check(sorted(got) == sorted(names), 'each_candidate_once',
                  'candidates {} reported as {}', sorted(names), sorted(got))
        for (_, row), name in zip(m.iterrows(), got):
            if bad is not None and name == bad.name:
                want = expected_status('linear', u, dated)
                if want == 'FIT':
                    want = 'NO-FIT'
                    ctx.hit('no_fit')
            else:
                want = expected_status(d_expr[name], u, dated)
            st = row['status']
            ctx.check(st == want or (want == 'FIT' and st == 'NO-FIT'
                                     and name != 'naive'), 'status',
                      'status of {} with {} samples is {} instead of {}',
                      name, u.n, st, want)
            ctx.hit({'FIT': 'fitted', 'TS_TOO_SHORT': 'too_short',
                     'EMPTY_TS': 'empty', 'INPUT_ERR': 'input_rejected'}.get(
                         st, 'other_status'))
            ctx.state(name.split('_fixed_')[0], st)
            ctx.check(bool(row['is_fit']) == (st == 'FIT'), 'is_fit',
                      'is_fit of {} is {}', st, row['is_fit'])
            out = obs.fdata(r, src, row['model'])
            if st == 'NO-FIT':
                o = r['optimize_info']
                o = o.loc[(o.source == src) & [
                    str(v) == row['model'] for v in o.model]].iloc[0]
                k = max(row['model_obj'].n_params, 1)
                ctx.check('LinAlg' in str(o['message']) or
                          o['iterations'] >= 100 * k, 'gave_up',
                          '{} with {} parameters is not fitted after {} '
                          'evaluations', name, k, o['iterations'])
            if st != 'FIT':
                ctx.check(len(out) == 0, 'no_output_without_fit',
                          '{} with status {} has output', name, st)
                ctx.check(not row['is_best_fit'], 'not_best_without_fit',
                          '{} with status {} is best', name, st)
            elif name not in ('naive', 'snaive_wday'):
                ctx.check(len(out) > 0, 'output_with_fit',
                          '{} has no output', name)
    # results do not depend on other candidates: drop those that failed
    det = [e for e in l_e if e in ('linear', 'linear_nondec')]
    if det and not l_s and n_src == 1 and start is None:
        r1 = obs.run(df, seed=case['seed'] + 1, include_all_fits=True,
                     extrapolate_years=.1, l_model_season=[],
                     l_model_trend=[models.get(det[0])], l_model_naive=[])
        a = md.loc[md.model == det[0]].iloc[0]
        b = r1['metadata'].iloc[0]
        ctx.check(a.status == b.status, 'independent',
                  'status of {} depends on other candidates', det[0])
        if a.status == 'FIT':
            sc = np.nansum(np.square(df.y)) + 1e-12
            ctx.check(abs(a.cost - b.cost) <= 1e-6 * sc, 'independent',
                      'cost of {} depends on other candidates: {} {}',
                      det[0], a.cost, b.cost)
            f1, f2 = obs.fdata(r, model=det[0]), obs.fdata(r1, model=det[0])
            ctx.check(list(f1.date) == list(f2.date) and obs.num_close(
                f1.y, f2.y, 1e-4, 1e-4 * obs.scale_of(f1.y)),
                'independent', 'output of {} depends on other candidates',
                det[0])
