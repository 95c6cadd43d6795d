"""Hand-written notes that tools/design.py puts into DESIGN.md"""
NOTES = {
 'C01': 'Every public function, method and forecaster (all configurations of drive.configs) is run on symbolic arguments the caller owns; '
        'storage regions track views, so writing into `x.values` or an in-place pandas method on the argument counts. About three minutes.',
 'C02': 'The same driver, with a fitted model; writes into storage the model owns during a prediction are violations unless the attribute is always '
        'rewritten before it is read. About one minute.',
 'C03': 'fit(x, y) then fit(x2, y2): a term of the second state or prediction that depends on x or y on every path is a violation. About three minutes.',
 'C04': 'Each option is a distinct symbol; it must occur in what a forecaster computes, and reach the learner keyword of its name. About one minute.',
 'C05': 'Construct, set_params, fit, predict with one symbol per option; the state is compared with that of a fresh forecaster. About two minutes.',
 'C06': 'The event log of every entry point is searched for draws, seeds, ambient reads and iteration over sets that reaches a result. About three minutes.',
 'C08': 'The terms of the calibration and of every quantile forecast are compared with truth minus forecast, by axis, level and hour. Seconds.',
 'C09': 'Symbolic shapes and the order of axes through reshape, stack, swapaxes and DataFrame construction. Seconds.',
 'C10': 'As C09, for point forecasts. Seconds.',
 'C11': 'Transformations are evaluated to windows [start, end] of time whose ends are polynomials in the lag, the sampling time and the aggregation '
        'width; they are compared with the requested window for all values at once. Seconds.',
 'C12': 'Masks of folds are intervals with polynomial ends; disjointness and distances are inequalities between the polynomials. Seconds.',
 'C13': 'Terms are classified by the rows of the data they are made of. Seconds.',
 'C14': 'Loops that make labels, columns and metadata are compared as nests: same sources, same order. Seconds.',
 'C15': 'A transformer is used twice on two symbolic data sets; the second result must not contain the first. Seconds.',
 'C16': 'The row selections of normalize, denormalize and add_normalizing_columns are decided on the two kinds of metadata rows. Seconds.',
 'C17': 'Each parallel switch is a pair of symbolic runs whose results must be equal after splitting and joining are normalised. Seconds.',
 'C18': 'The tables of a training and a forecasting run are evaluated row-wise on all combinations of missing column groups (32 to 128). Seconds.',
}
TAIL = '''
## Limits of the family

Runtime quantities - accuracy, calibration, optimality of reductions, convergence of training - are not bounded by any argument over the
source; the properties about them are listed as not applicable and no runtime test is registered in their place. Third-party code enters
as summaries (`sa/extlib.py`); a change in those libraries is not seen.
'''
