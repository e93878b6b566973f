"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
TLC = 'TLA+ model checked with TLC; '
NOTES = {
    'C01': (TLC + 'real chains validated step by step against HeapTree/Ensemble',
            'Design: Ensemble/McmcStep models exhaustively for small constants (McmcStep refines Ensemble). Code: every state of ~45 seeded chains (integer-width boundaries, depth 1-10, void predictors, single-point and empty data) judged by TLC. Unseen configurations are not covered.'),
    'C02': (TLC + 'every pair of consecutive recorded states judged as an Ensemble step, with its counters',
            'As C01; exact comparison of structures and counters.'),
    'C03': (TLC + 'recorded leaf indices compared with Traverse of the specification',
            'As C01; exact comparison for all points and trees of every recorded state.'),
    'C04': (TLC + 'residual recomputed in fixed point from the recorded trees at every state',
            'As C01; tolerance covers the worst accumulated float32 roundoff of the chain, so errors below it are not seen.'),
    'C05': (TLC + 'leaf populations recomputed by the specification at every recorded state',
            'As C01; chains steered to the boundary (n = 2*min, min = 0/1/2/3/5, counts in batches).'),
    'C06': (TLC + 'exact detailed balance in the Kernel model; outcome frequencies and saved ratios of the real step judged against the kernel of the specification',
            'Model: detailed balance with exact integer arithmetic on all trees of small constants. Code: all reachable trees of small problems, 30000-60000 keys each; ratios to float32 roundoff, frequencies to six standard deviations; stationary distribution without data.'),
    'C07': (TLC + 'proposal probabilities of the Kernel model against outcome frequencies of the real step; reachable trees compared exactly',
            'As C06 plus large problems (300 predictors, 255/256/300 cutpoints, depth 9) by marginal frequencies.'),
    'C08': (TLC + 'leaf draws of the real step judged against the conditional distribution of the specification',
            'Mean, variance and standardized draws over thousands of keys per state (moments, distribution function, correlations between leaves and trees), exact conditional mean through the sequential tree update; statistical tests at about six standard deviations, so smaller biases are not seen.'),
    'C09': (TLC + 'noise variance draws of the real step judged against the conditional distribution of the specification',
            'As C08: the implied gamma variates over thousands of keys compared with tabulated distribution functions; initial value compared exactly over a grid of prior parameters.'),
    'C10': (TLC + 'the run loop as a state machine (McmcLoop; inductive invariant proved by Apalache for every B, S, K up to the integer width); real runs judged against it row by row',
            'Unbounded in the model. Code: all schedules B, S < 4, K < 4 (and larger ones), compiled and not, with callback logs and the rows of the traces compared exactly with the states of the chain.'),
    'C11': (TLC + 'pairs of real runs related by the specification of the loop (same chain, different cuts, callbacks, compilation)',
            'Pairs of runs of a finite set of configurations; exact comparison between compiled runs, roundoff between compiled and not compiled ones.'),
    'C12': (TLC + 'results of the real evaluation judged against Evaluate of HeapTree',
            'All trees of depth up to 3 and a selection of deeper ones on all points, random forests up to depth 18, dtype boundaries, batching budgets; tolerance of the floating point type used.'),
    'C13': (TLC + 'cutpoints computed by the real code judged against the Bins specification, whose consequences are model-checked',
            'All vectors of length up to 4-6 over a few values and all bin numbers up to 6, in 6 types; random vectors around the integer-width boundaries (257, 65537 distinct values, 10000-65536 bins), extremes of each type; exact comparison.'),
    'C14': (TLC + 'grids computed by the real code judged against the Bins specification',
            'Number of bins 1 to 70000 on seeded data of several types and scales; compared to roundoff.'),
    'C15': (TLC + 'bins computed by the real code judged against Bin of the specification',
            'All sets of cutpoints out of 5 values (7 thorough) with padding and all values, 8 types and all search methods; random large tables at width boundaries; exact comparison.'),
    'C16': (TLC + 'outputs of real fits judged against the Interface and HeapTree specifications: predictions recomputed from raw predictors and the saved forest; query histories replayed',
            'Seeded fits over a grid of options and all histories of three queries on one model; predictions in fixed point within roundoff; the forest is captured at the run_mcmc boundary and those clauses are skipped if that boundary changes.'),
    'C17': (TLC + 'state built by the interface judged against the prior of the Interface specification, in exact or fixed-point arithmetic',
            'About 120 data sets and option combinations (boundary n = p, rank-deficient, constant predictors, overrides); quantiles tabulated for integer degrees of freedom; tolerance about 1e-4 relative.'),
    'C18': (TLC + 'pairs of real fits related by the map of the specification',
            '15 shift/scale pairs (powers of two up to 2^40) on eight data sets; compared in fixed point, trees compared exactly where the scaling is exact.'),
    'C21': (TLC + 'fingerprints of the inputs before and after real calls judged by the specification; caller keeps every input',
            'Compiled and not compiled stepping, running, evaluation, fits from arrays, pandas, polars; a finite set of configurations; exact.'),
    'C22': (TLC + 'pairs of real chains differing in tuning options related by the specification row by row',
            'Batch sizes around 1, n, 256 and automatic, with and without ratios, on eight data sets, and through the interface; structures and counts exact, values within roundoff.'),
    'C23': (TLC + 'diagnostics of the real code judged against Diagnostics, which is model-checked against reachability',
            'Trees of depth 1-10 with 17 planted defects and combinations, 255/256/257/65536 points or predictors, traces and interface methods; exact except ratios and printed digits.'),
    'C19': (TLC + 'values, structure, number and sizes of the executed batches of real calls judged against the Batch specification',
            'Sizes 0-25 (40 thorough) and larger composite ones, budgets at the exact boundaries, 11 signatures mixing axes, types, unbatched arguments and nested arguments; exact comparison.'),
    'C20': (TLC + 'outputs of the real function judged against the definition that the Unique scan model refines',
            'All arrays of length up to 5-7 over 3-4 values, all sizes and fill values, 4 types; random long arrays at width boundaries; exact comparison. NaN is outside.'),
    'C24': (TLC + 'history of every random key of real runs, recorded by an instrumented generator, judged against the Keys specification; joint frequencies of unrelated decisions',
            'Histories: schedules, forests, compiled and not compiled steps, interface with key or seed; exact. Shared draws are only seen as dependence over 8192 keys (32768 thorough), at six standard deviations, without data.'),
    'C25': (TLC + 'printed lines of real runs judged against the log of the McmcLoop model',
            'A finite set of schedules and intervals; percentages compared to the printed digits.'),
    'C27': (TLC + 'types and shapes of real states and traces judged against the Layout specification, whose layout is model-checked to be a fixed point of the step',
            'Configurations around the limits of the integer types (2^8, 2^16 nodes or predictors), 4 floating point types, 64 bit mode, options; initial state, step, compiled steps, run, second run; exact.'),
    'C28': (TLC + 'ensembles of real chains started from the joint distribution of parameters and data, whose counts are judged against the prior of the Posterior specification (model-checked: generating process = kernel invariant)',
            '11 configurations (1-5 trees, depth 2-5, 1-20 points), 60000 chains each, all trees of the support; frequencies to six standard deviations, so biases of the stationary distribution below about 0.5-1% absolute are not seen.'),
    'C26': (TLC + 'helpers of the real code compared with the operators of HeapTree',
            'All arrays up to 16 nodes (also not valid trees), random larger ones; exact comparison.'),
}


def main():
    props = [json.loads(l) for l in open(VERIF / 'properties.jsonl')]
    man = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
    for p in props:
        i = p['id']
        if i in NOTES:
            tech, note = NOTES[i]
            run = f'/opt/venv/bin/python -B harness/run.py {i}'
            man['checks'].append(dict(property=i, quick_cmd=run, thorough_cmd=f'VERIF_TIER=thorough {run}',
                                      evidence_file=f'evidence/{i}.json', technique=tech,
                                      level='model_checking', level_note=note))
        else:
            man['not_applicable'].append(dict(property=i, reason='check under construction'))
    (VERIF / 'MANIFEST.json').write_text(json.dumps(man, indent=1) + '\n')


main()
