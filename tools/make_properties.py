"""Writes properties.jsonl. Usage: python3 tools/make_properties.py"""
import json
import os

F = 'anticipy/forecast.py'
FM = 'anticipy/forecast_models.py'
MU = 'anticipy/model_utils.py'
PL = 'anticipy/forecast_plot.py'
APP = 'anticipy/app.py'
L = []


def P(id, title, statement, over, quant, why, files, mech, observe=None):
    L.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or ['return value of the public forecast API'],
            hook_needed=None)))


P('C01', 'Equivalent inputs give the same forecast, every sample kept',
  'A time series gives the same forecast however it is presented: dates as a '
  'column or as the index, as timestamps or text, columns under custom names, '
  'rows in any order, with extra unused columns, as a one-column table or a '
  'series. Input normalisation keeps every sample with its value, weight, '
  'date and source, orders samples by source and then by time, and, without '
  'an explicit x axis, measures x in calendar days since the Monday of the '
  'week of the first date of each source, or takes it from the numeric index '
  'if there are no dates.',
  ['inputs', 'configurations'],
  'all valid input tables, and all combinations of presentation changes',
  'Tests normalise a few small tables; they never compare forecasts across '
  'presentations, nor row orders, time zones or many sources.',
  [F, MU], [('input normalisation', F + ':normalize_df'),
            ('x axis from dates', MU + ':get_normalized_x_from_date')])

P('C02', 'Inputs passed by the caller are never modified',
  'Forecasting, fitting, extrapolating, outlier detection, gap filling, '
  'prediction intervals and plotting leave the tables, arrays, lists and '
  'models passed by the caller unchanged, whether they succeed or fail. '
  'Repeating a call with the same objects, or using them in another call, '
  'sees the original data.',
  ['inputs', 'histories', 'configurations'],
  'all public functions, inputs and option combinations',
  'No test compares inputs before and after a call; aliasing depends on the '
  'options and columns used.',
  [F, FM, MU, PL], [('defensive copies', F + ':normalize_df'),
                    ('defensive copies', F + ':run_forecast_single'),
                    ('defensive copies', F + ':fit_model'),
                    ('defensive copies', FM + ':get_model_outliers')])

P('C03', 'Ignored samples have no influence on the forecast',
  'Unless outlier detection is requested, samples with weight zero or missing '
  'weight, and samples before the requested first date, never influence the '
  'fit: replacing their values by any others leaves the fitted parameters, '
  'cost, model choice, forecast and prediction intervals unchanged. For given '
  'candidate models, samples with a missing value are treated like samples '
  'with weight zero. Samples before the requested first date do not appear in '
  'the output at all, while zero-weight samples remain visible as actuals.',
  ['inputs', 'configurations'],
  'all series, weights, null patterns, start dates, models and options',
  'Tests use weights on a couple of series and look at selected outputs; '
  'non-influence needs two runs compared for every position and option.',
  [F, MU], [('weight and null filters', F + ':fit_model'),
            ('masking of naive model input', F + ':run_forecast_single'),
            ('residual filter', F + ':_get_pi_single_source')])

P('C04', 'Reported fit matches the data: cost, bounds, optimality',
  'For every fitted model, the reported cost is half the sum of squared '
  'weighted residuals between the used samples and that model\'s output, with '
  'each weight divided by the number of samples that share its time; the '
  'parameters lie within the bounds of the model and reproduce its output '
  'series. For models linear in their parameters the cost is the minimum '
  'possible, and series generated exactly by such a model are recovered.',
  ['inputs', 'configurations'],
  'all series, weights, repeated samples, gaps and regression models',
  'Tests fit noiseless samples for a few models; cost, weights, repeated '
  'samples and optimality are never recomputed independently.',
  [F], [('least squares', F + ':optimize_least_squares'),
        ('residuals', F + ':get_residuals'),
        ('sample weights', F + ':fit_model')])

P('C05', 'The selected model is the fitted candidate with the lowest AICc',
  'Every fitted candidate is scored with the corrected Akaike information '
  'criterion computed from its cost, its number of parameters and the number '
  'of samples used. Each source has exactly one best model, which is a fitted '
  'candidate with the lowest score, and the forecast table contains the '
  'output of that model and no other, identically whether or not all fits are '
  'requested.',
  ['inputs', 'configurations'],
  'all series and candidate sets',
  'Tests check that some best fit exists; the score is never recomputed and '
  'the choice never compared to the full candidate list.',
  [F, MU], [('score', MU + ':get_aic_c'),
            ('best fit selection', F + ':run_forecast_single'),
            ('best key', MU + ':get_s_aic_c_best_result_key')])

P('C06', 'Every candidate gets exactly one truthful status',
  'With all fits requested, each candidate model appears exactly once per '
  'source, with a status that tells whether it was fitted, had too few '
  'samples (fewer than its parameters plus two), had no samples, or did not '
  'accept the input. A fit is only given up when the optimiser used its '
  'evaluations (100 per parameter) or could not solve a step. Candidates that could not be fitted never produce '
  'forecast rows, are never best, and never change the results of other '
  'candidates or sources.',
  ['inputs', 'configurations'],
  'all series lengths around each threshold, and all candidate sets',
  'Tests try a handful of lengths and models and print the metadata.',
  [F, FM], [('status decision', F + ':fit_model'),
            ('input validation', FM + ':ForecastModel.validate_input')])

P('C07', 'Caching model variables never changes results',
  'Enabling or disabling the caching of model variables gives the same fits '
  'and forecasts. The values a model caches for a series are those it would '
  'compute without a cache, for every model and composition of models, '
  'including several models with the same name.',
  ['inputs', 'configurations', 'programs'],
  'all models, compositions, series and date ranges',
  'Tests run with and without cache for some models and compare timing, not '
  'results.',
  [F, FM], [('cache', FM + ':ForecastModel.init_cache'),
            ('cache use', F + ':optimize_least_squares')])

P('C08', 'The forecast covers the documented dates exactly once',
  'The output of each fitted regression model has one sample for each step '
  'of the sampling grid, from the first used actuals sample to the last '
  'actuals sample, followed by the documented number of future samples per '
  'year (365 daily, 52 weekly, 12 monthly, 4 quarterly, 1 yearly, 8760 '
  'hourly, 100 without dates) times the years requested, rounded down. Steps '
  'follow the calendar of the input (week day, start or end of month, quarter '
  'or year), in increasing order, without duplicates or omissions, also '
  'across gaps in the input.',
  ['inputs', 'configurations'],
  'all frequencies, anchors, first dates, lengths, gaps and horizons',
  'Tests extrapolate a few daily and weekly ranges; leap days, month ends, '
  'quarters, anchors and fractional years vary with the start date.',
  [F, MU], [('extrapolation axis', MU + ':get_s_x_extrapolate'),
            ('extrapolation', F + ':extrapolate_model')])

P('C09', 'Fit and forecast use one model, one x axis',
  'When a model is fitted and extrapolated, every date is given to the model '
  'with the same x value in both phases, x of forecast samples continues the '
  'x axis of the actuals, and only used samples are given to the model when '
  'fitting, with strictly matching x and date arrays. The forecast value at '
  'each date is the value of the fitted model at that date with the reported '
  'parameters.',
  ['inputs', 'configurations'],
  'all series with dates or numeric index, first dates, start dates, gaps',
  'Models used in tests are the built-in ones; a shifted x axis changes '
  'parameters but often not the fit, so tests that look at fits miss it.',
  [F, MU], [('x axis of actuals', MU + ':get_normalized_x_from_date'),
            ('x axis of forecast', MU + ':get_s_x_extrapolate')],
  ['calls received by candidate models supplied by the caller'])

P('C10', 'Actuals are reported faithfully in the output',
  'The full output contains each used input sample exactly once per source as '
  'an actuals row, with its date, value and weight, and the forecast table '
  'contains the same rows except those with a missing value, always without '
  'interval columns filled. Actuals rows are marked as such, and never mixed '
  'with model output, whose rows carry the model, source and a weight of one.',
  ['inputs', 'configurations'],
  'all series, sources, weights, nulls, repeated samples and options',
  'Tests look at sizes of some outputs; conservation must hold for each '
  'sample and option.',
  [F], [('actuals table', F + ':get_df_actuals_clean'),
        ('forecast table', F + ':_get_pi_single_source')])

P('C11', 'Sources are forecast independently of each other',
  'Forecasting several sources in one table gives, for each source, the rows '
  'that forecasting this source alone would give, whatever the other sources '
  'contain and in whatever order the rows come. Results of separate runs '
  'are aggregated by concatenation, without loss, duplication or change.',
  ['inputs', 'configurations'],
  'all sets of sources with different lengths, frequencies, weights, and row '
  'orders',
  'Tests run two or three similar sources and check sizes.',
  [F], [('loop over sources', F + ':run_forecast'),
        ('per source normalisation', F + ':normalize_df'),
        ('aggregation', F + ':aggregate_forecast_dict_results'),
        ('interval per source', F + ':get_pi')])

P('C12', 'Prediction intervals are nested, centred and bounded by residuals',
  'Every forecast row has four percentile columns named after the requested '
  'percentiles, in increasing order and nested, and actuals rows have none. '
  'They are the forecast plus percentiles of sums of centred residuals of '
  'the used samples: one residual for past samples, and one more after each '
  'widening period for future samples, so that the interval keeps a constant '
  'range in the past and widens by the documented calendar period in the '
  'future.',
  ['inputs', 'configurations'],
  'all series, weights, percentiles, frequencies, widening periods, horizons',
  'Intervals are random: tests only plot them or look at columns.',
  [F], [('prediction interval', F + ':get_pi'),
        ('single source', F + ':_get_pi_single_source'),
        ('percentiles', F + ':_df_add_pi_percentiles')])

P('C13', 'Model composition obeys its algebra',
  'The sum of two models evaluates to the sum of their outputs, and the '
  'product to the product of their multiplicative outputs, with parameters, '
  'initial values and bounds taken from the first and then the second model; '
  'the empty model is neutral. Number of parameters, input requirements and '
  'cached variables of a composition combine those of its parts, the parts '
  'are unchanged, and grouping does not change the output.',
  ['programs', 'inputs'],
  'all expressions over the available models, of any depth',
  'Tests compose a few pairs of models on short axes.',
  [FM], [('composition', FM + ':ForecastModel.__add__'),
         ('composition', FM + ':ForecastModel.__mul__')],
  ['values returned by composed models'])

P('C14', 'Initial values and bounds are always usable',
  'For every available model and composition and every series the model '
  'accepts, the initial values have one finite number per parameter and lie '
  'within the bounds, and the bounds have one ordered pair per parameter. '
  'Bounds of the piecewise models lie within the time range of the series, '
  'and asking for initial values without data also works.',
  ['inputs', 'programs'],
  'all models, compositions and series, including constant, tied, short, '
  'negative and repeated samples',
  'Tests check bounds for a few models on well-behaved series.',
  [FM], [('initial values', FM + ':_f_init_params_ramp'),
         ('bounds', FM + ':_f_init_bounds_ramp'),
         ('validation', FM + ':validate_initial_guess')],
  ['values returned by models'])

P('C15', 'Model functions compute their documented formulas, purely',
  'Each built-in model evaluates to its documented formula, additive or '
  'multiplicative, for all parameters and time ranges. Evaluation depends '
  'only on the arguments: it is the same for a sample alone or as part of a '
  'longer range, on every call, in any thread, and does not change its '
  'arguments.',
  ['inputs', 'programs', 'schedules'],
  'all built-in models, parameters, x values and dates; concurrent '
  'evaluation from several threads',
  'Tests evaluate each model for one or two parameter values.',
  [FM], [('model functions', FM + ':_f_model_linear'),
         ('seasonal models', FM + ':_f_model_season_wday'),
         ('fourier', FM + ':_f_model_yearly_season_fourier')],
  ['values returned by models'])

P('C16', 'Naive models repeat the last known sample and never look ahead',
  'The naive model gives each sample the last known value before it, and the '
  'seasonal one the last known value of the same week day; future samples '
  'repeat the last known value, or the last known week. Only samples with '
  'positive weight and a value are known, gaps and repeated requests are '
  'handled, and a value never depends on samples at or after its own date, '
  'except that dates before the first known sample may use it.',
  ['inputs', 'configurations'],
  'all series, gaps, weights, null patterns, start dates and horizons',
  'Tests compare a few short series without most gap and weight patterns.',
  [FM, F], [('naive', FM + ':_f_model_naive'),
            ('seasonal naive', FM + ':_f_model_snaive_wday'),
            ('input of naive models', F + ':run_forecast_single')])

P('C17', 'Outlier detection flags spikes and steps, and only ignores them',
  'Outlier detection returns one step flag and one spike flag per sample, '
  'independent of the offset, unit and time position of the series; series '
  'without outlying changes have no flags, an isolated spike is flagged at '
  'its own samples, and an isolated step as a step and not as a spike. '
  'Forecasting with outlier detection equals forecasting with weight zero at '
  'the flagged spikes.',
  ['inputs', 'configurations'],
  'all series, positions, heights, lengths and signs of outliers',
  'Tests use hand-made series; equivariance and equality of forecasts are '
  'never compared.',
  [FM, F], [('outliers', FM + ':get_model_outliers'),
            ('thresholds', FM + ':get_iqr_thresholds'),
            ('use of outliers', F + ':run_forecast_single')])

P('C18', 'Sampling frequency is detected, and gaps are filled on the grid',
  'The sampling frequency reported for a series (hourly, daily, weekly on its '
  'week day, and start or end of month, quarter or year with its month) is '
  'that of its grid, for any start date, order, repetition and gaps that '
  'leave the grid recognisable, and a series with a time zone has the '
  'frequency and forecast of its local times. Filling gaps adds exactly the missing steps '
  'of the grid, marks them if requested, interpolates x (and values if '
  'requested) linearly, and leaves existing samples unchanged.',
  ['inputs'],
  'all grids, start dates, lengths, gap patterns, orders and repetitions',
  'Tests use a few start dates per frequency.',
  [MU], [('frequency', MU + ':detect_freq'), ('gaps', MU + ':interpolate_df')])

P('C19', 'Calendar and dummy models mark exactly the right dates',
  'Holiday calendars mark the documented public holidays of the United '
  'Kingdom, Italy and the United States for every year, and models built '
  'from a calendar, a holiday, a list of dates or numbers, or a condition '
  'apply exactly on those dates: their parameter adds to, or scales, matching '
  'samples and leaves all others untouched. Whether a date is marked does not '
  'depend on which other dates are evaluated with it.',
  ['inputs', 'configurations'],
  'all dates over decades, ranges of dates, lists and calendars',
  'Tests check one or two years and a few dates.',
  [FM], [('dummies', FM + ':get_model_dummy'),
         ('calendars', FM + ':get_model_from_calendars'),
         ('date lists', FM + ':get_model_from_datelist')],
  ['values returned by calendar and dummy models'])

P('C20', 'Results are deterministic, independent of history and order',
  'From the same state of the random generator, the same call gives '
  'identical results, regardless of what was computed before in the process, '
  'in which process it runs and of hash randomisation. The selected model and '
  'the set of results do not depend on the order in which candidate models or '
  'sources are listed, and repeated candidates count once.',
  ['histories', 'inputs', 'configurations'],
  'all sequences of earlier calls, candidate orders and processes',
  'Tests never repeat runs or compare processes.',
  [F, FM], [('candidate list', F + ':run_forecast_single'),
            ('composition of candidate lists', F + ':get_list_model'),
            ('module state', FM)])

P('C21', 'Forecasts are equivariant to units and to shifts in time',
  'Multiplying all values by a positive factor multiplies forecasts and '
  'intervals by it, and adding a constant adds it to forecasts of models '
  'with a free level; multiplying all weights by a positive factor, or '
  'repeating every sample the same number of times, leaves forecasts '
  'of a given model unchanged. Shifting all dates by whole weeks, or all positions of a '
  'numeric index, shifts the forecast of models that do not use the calendar.',
  ['inputs', 'configurations'],
  'all series, factors, offsets and shifts',
  'Tests have no reference result for general series; equivariance compares '
  'pairs of runs over many inputs.',
  [F, MU], [('fit', F + ':fit_model'), ('x axis', MU),
            ('prediction interval', F + ':_get_pi_single_source')])

P('C22', 'Any valid series gives a complete, well-formed result',
  'For every non-empty series with a value column, of any length, '
  'supported frequency, weights, missing values, gaps and options, the '
  'forecast finishes without an error and returns the documented tables with '
  'the documented columns, one best model at most per source, and finite '
  'forecast values; an empty table gives no result. If no candidate can be '
  'fitted, the actuals are still returned.',
  ['inputs', 'configurations'],
  'all valid series and all combinations of options',
  'Tests sample a few dozen configurations; crashes were found for single '
  'samples, quarterly dates, constant values, zero weights and others.',
  [F, FM, MU], [('forecast', F + ':run_forecast'),
                ('fit', F + ':fit_model'),
                ('interval', F + ':get_pi')])

P('C23', 'Automatic candidates follow the documented data requirements',
  'Without explicit models, the candidates are the documented ones: a linear '
  'trend, plus a piecewise one for more than two years of data; weekly '
  'seasonality with at most daily steps and more than one and a half weeks; '
  'yearly seasonality with at most quarterly steps and more than one and a '
  'half years; calendars with daily steps over more than a year; the naive '
  'model, by week day for daily series. They are composed additively, '
  'multiplicatively, both, or as detected from whether variance grows with '
  'the mean, as requested, counting only samples with positive weight.',
  ['inputs', 'configurations'],
  'all lengths around each threshold, frequencies, weights, and options',
  'Tests check some seasonality lists at a few lengths.',
  [F, FM, MU], [('seasonality', FM + ':get_l_model_auto_season'),
                ('trend', F + ':_get_use_ramp'),
                ('composition', F + ':get_list_model'),
                ('detection', MU + ':is_multiplicative')])

P('C24', 'Plots show the forecast data completely',
  'Interactive and static plots draw, for each source, the actuals and '
  'forecast values of the table at their dates, and the prediction interval '
  'when present, one panel per source. Plotting writes exactly the requested '
  'files, reports success truthfully, works for any number of sources, sizes '
  'and options, and does not change the table.',
  ['inputs', 'configurations'],
  'all forecast tables, numbers of sources, formats, sizes and options',
  'Tests only check that plotting does not raise for some tables.',
  [PL], [('plot', PL + ':plot_forecast'),
         ('static', PL + ':_matplotlib_forecast_create'),
         ('interactive', PL + ':_plotly_forecast_create')],
  ['files written', 'figures created'])

P('C25', 'The command line application equals the library',
  'The command line application writes, for the series in a CSV file, the '
  'same forecast and metadata tables that the library returns for that file '
  'and options, rounding aside, in files named after the input, and plots '
  'when requested. It writes only inside the requested folder, '
  'by default that of the input, and leaves the input file unchanged.',
  ['inputs', 'configurations'],
  'all input files, column names and options',
  'The application has no test beyond an import.',
  [APP], [('application', APP + ':run_forecast_app'),
          ('output', APP + ':main')],
  ['files written by the application'])

P('C26', 'Fixing parameters equals inserting their values',
  'A model with some or all of its parameters fixed evaluates, for the '
  'remaining parameters, to the original model with the fixed values '
  'inserted at their positions, additively and multiplicatively, with the '
  'initial values and bounds of the remaining parameters. Parameters whose '
  'bounds coincide are fixed automatically at that value before fitting, and '
  'other models are left as they are; the original model and the values '
  'given are never changed or shared.',
  ['programs', 'inputs'],
  'all models, compositions, subsets of fixed parameters and values',
  'Tests fix parameters of one or two models.',
  [FM], [('fix', FM + ':fix_params_fmodel'),
         ('fix all', FM + ':get_fixed_model'),
         ('simplify', FM + ':simplify_model')],
  ['values returned by models'])

P('C27', 'Result metadata describes the run truthfully',
  'The metadata and optimisation tables describe the same fits, one row per '
  'candidate and source in each (metadata keeps only the best unless all '
  'fits are requested), agreeing on source, identifier, model, parameters, '
  'cost and success; candidates without fit attempt have no parameters, cost or '
  'score. The reported frequency, first and last sample, weight range and '
  'text form of the parameters are those of the samples and parameters used '
  'in the fit, and the identifier, best-model mark and model name of every '
  'output row match those of its metadata row.',
  ['inputs', 'configurations'],
  'all valid series, weights, first dates, numbers of sources, candidates '
  'and options',
  'Tests look at a few columns of the metadata of some fixed series, and '
  'never compare tables with each other.',
  [F], [('metadata', F + ':_get_df_fit_model'),
        ('fit', F + ':fit_model'),
        ('assembly', F + ':run_forecast_single'),
        ('optimiser', F + ':optimize_least_squares')],
  ['metadata, optimize_info and data tables'])

P('C28', 'Concurrent use gives the same results as use in sequence',
  'Forecasts, fits, model evaluations and helper functions called at the '
  'same time from several threads or forked processes, also on the same '
  'tables and model objects, return what the same calls return one after '
  'another (random parts of prediction intervals aside). Shared tables are '
  'not modified at any moment of a call, not even temporarily.',
  ['schedules', 'inputs'],
  'all interleavings of calls, all series and options with well-defined fits',
  'Tests run in a single thread.',
  [F, FM, MU], [('forecast', F + ':run_forecast'),
                ('fit', F + ':fit_model'),
                ('cache', FM + ':ForecastModel.init_cache'),
                ('models', FM + ':ForecastModel')],
  ['results recorded by each thread and process'])

P('C29', 'Calls leave no trace in the process',
  'Forecasting and plotting calls, also those that fail, leave process-wide '
  'state as it was: numeric error handling, options, warning filters, '
  'logging, environment, working folder, plot settings, open figures, files, '
  'threads and signal handlers; the random generator is used but never '
  'reseeded, and no file is written but the requested plot. Results do not '
  'depend on display or style settings of the process, and the '
  'memory retained does not grow with the number of calls.',
  ['histories', 'configurations', 'inputs'],
  'all sequences of calls, arguments and process settings',
  'Tests check results of single calls only.',
  [F, FM, MU, PL], [('forecast', F + ':run_forecast'),
                    ('plot', PL + ':plot_forecast'),
                    ('static', PL + ':_matplotlib_forecast_create'),
                    ('models', FM + ':ForecastModel')],
  ['state of the process around calls'])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..',
                    'properties.jsonl')
with open(path, 'w') as f:
    for p in L:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
