"""Source of properties.jsonl and MANIFEST.json:  python3 meta/props.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), technique='', level=None, note=''):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                           'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                           'observe_at': list(observe), 'hook_needed': None}, technique=technique, level=level, note=note))


AI = 'static analysis: abstract interpretation of the LLVM IR of src/*.c with trace partitioning and value numbering'

p('P01', 'The answer to a streamed value is decided by the two thresholds',
  'Feeding one value to a fitted detector answers "data is NaN" for NaN, "anomaly" exactly when anomalies are discarded and the value lies strictly beyond the anomaly threshold on the monitored side, "excess" exactly when it is not an anomaly and lies at or beyond the excess threshold on that side, and "normal" otherwise. The lower-tail mode is the exact mirror image of the upper-tail mode.',
  ['inputs', 'histories', 'configurations'], 'every value (NaN and infinities included), every threshold pair, both tails, both discard settings, any container state',
  'the tests feed a few Gaussian samples to an upper-tail detector; boundary equality, lower tail and non-discarding mode are barely reached',
  ['src/spot.c', 'include/spot.h'], [('spot_step', 'src/spot.c')],
  [('anomaly_threshold, excess_threshold', 'the two cut points', 'include/structs.h')], ['return value of spot_step'],
  AI + '; every partition of spot_step is compared with the specified verdict')

p('P02', 'Rejected and normal values leave no trace in the model',
  'A value answered by "anomaly" or by an error changes nothing in the detector: no counter, threshold, tail parameter or stored excess. A value answered by "normal" increases the number of observations by one and changes nothing else.',
  ['inputs', 'histories', 'configurations'], 'every value and every detector state, both tails, both discard settings',
  'tests compare a handful of final counters; they do not compare the whole detector before and after each verdict',
  ['src/spot.c'], [('spot_step', 'src/spot.c')], [('n, Nt, thresholds, tail', 'whole detector', 'include/structs.h')],
  ['fields of the detector after spot_step'], AI + '; frame rule over all cells of the detector and its container')

p('P03', 'An excess updates counts, container, model and threshold consistently',
  'A value answered by "excess" is counted as an observation and as an excess, its distance to the excess threshold (positive on the monitored side) is stored once, the tail model is refitted once after that, and the anomaly threshold becomes the quantile of the configured probability under the refitted model and the updated counts. The excess threshold and the configuration do not change.',
  ['inputs', 'histories', 'configurations'], 'every excess value, every detector state, both tails',
  'the order of the update steps only shows numerically, and the tests use loose bounds on the final threshold',
  ['src/spot.c', 'src/tail.c'], [('spot_step', 'src/spot.c'), ('tail_push', 'src/tail.c'), ('tail_fit', 'src/tail.c')],
  [], ['fields of the detector after spot_step'], AI + '; ordered event trace (push, refit, quantile) of each partition against the protocol')

p('P04', 'Fitting uses every training value and reports failure truthfully',
  'Fitting sets the excess threshold to the estimated quantile of the whole batch at the configured level (at one minus the level for the lower tail), stores exactly the values strictly beyond it as distances in input order, restarts the counters (observations = batch size, excesses = number stored), fits the tail once and derives the anomaly threshold. It reports success only when both thresholds are numbers, and otherwise the error of the threshold that is not; the configuration is never changed.',
  ['inputs', 'configurations', 'histories'], 'every batch length and content, both tails, every previous state of the detector',
  'tests fit one Gaussian batch; the set of stored excesses, NaN outcomes and refits are not examined',
  ['src/spot.c'], [('spot_fit', 'src/spot.c')], [], ['return value of spot_fit and fields of the detector'],
  AI + '; the fill loop is summarised (one iteration generic in the index) and its effects compared with the specification')

p('P05', 'Initialisation validates its parameters and defines the whole detector',
  'Initialisation succeeds exactly when 0 <= level < 1, 0 < q < 1 - level (NaN is refused) and storage for the requested number of excesses can be obtained; each refusal has its own error code and keeps no memory. After success every field is defined: parameters as given, empty tail, zero counters, thresholds not yet defined (NaN).',
  ['inputs', 'configurations', 'fault_sequences'], 'all parameter values including NaN and boundaries, every outcome of the allocator',
  'tests try three or four bad parameters; NaN, boundary values and allocation failure are not combined',
  ['src/spot.c', 'src/tail.c', 'src/peaks.c', 'src/ubend.c'], [('spot_init', 'src/spot.c'), ('ubend_init', 'src/ubend.c')],
  [], ['return code and fields after spot_init'], AI + '; validation partitions over symbolic level/q and both allocator outcomes')

p('P06', 'The excess container is a bounded FIFO',
  'The container holds the most recent values pushed, at most its capacity, and each push beyond the capacity replaces exactly the oldest value and returns it (NaN when nothing is dropped). Its size is the number of pushes capped by the capacity, and no push touches any other slot.',
  ['histories', 'inputs', 'configurations'], 'any capacity, any number and content of pushes',
  'tests push a few values in a container of fixed size',
  ['src/ubend.c'], [('ubend_push', 'src/ubend.c'), ('ubend_size', 'src/ubend.c'), ('ubend_init', 'src/ubend.c')],
  [('cursor, filled', 'position of the next write; whether the container wrapped', 'include/structs.h')], ['container slots and return values'],
  AI + '; one push from the generic container state (symbolic cursor and capacity), both regimes: an inductive step')

p('P07', 'Excess statistics always describe exactly the stored excesses',
  'After any sequence of pushes the sum, sum of squares, minimum and maximum kept for the excesses are those of the values currently stored, also when the value leaving the container was the minimum or maximum. The mean and variance queries return the mean and population variance of those values.',
  ['histories', 'inputs'], 'any capacity, any stored values, any pushed value including one equal to the extremes, evictions of extremes',
  'tests push random data and compare loosely; an eviction of an extreme value followed by queries is rare',
  ['src/peaks.c'], [('peaks_push', 'src/peaks.c'), ('peaks_mean', 'src/peaks.c'), ('peaks_var', 'src/peaks.c')],
  [('e, e2, min, max', 'running statistics', 'include/structs.h')], ['fields and queries of the excess container'],
  AI + '; inductive step of a push with loop summaries (sum/min/max reductions over a symbolic number of values)')

p('P08', 'Quantile and probability are the generalised Pareto formulas and inverse',
  'For any fitted detector, the quantile of a probability and the probability of a value follow the generalised Pareto tail formulas with the exceedance ratio (excesses over observations), mirrored for the lower tail, with the exponential formulas when the shape is zero. The two queries are inverse of each other.',
  ['inputs', 'configurations', 'histories'], 'all parameters (zero shape included), all counts, both tails',
  'tests compare a few numbers with tolerance on one random detector',
  ['src/spot.c', 'src/tail.c'], [('spot_quantile', 'src/spot.c'), ('spot_probability', 'src/spot.c'), ('tail_quantile', 'src/tail.c'), ('tail_probability', 'src/tail.c')],
  [], ['returned numbers'], AI + '; extracted symbolic expressions compared with the formulas by normal form and identity testing')

p('P09', 'The tail model retained is the most likely of all estimators',
  'Fitting the tail evaluates every estimator once on the stored excesses, keeps the parameters of one whose log-likelihood no other estimator exceeds (one that is not a number never beats one that is) and returns that log-likelihood. Fitting modifies nothing but the two tail parameters.',
  ['inputs', 'histories'], 'every outcome of the estimators, NaN log-likelihoods included',
  'tests check the fit of one random tail; selection among NaN or tied likelihoods is not exercised',
  ['src/tail.c'], [('tail_fit', 'src/tail.c')], [('gamma, sigma', 'tail parameters', 'include/structs.h')], ['tail parameters and return value of tail_fit'],
  AI + '; estimators replaced by arbitrary results, selection decided on all orderings and NaN cases')

p('P10', 'The maximum-likelihood estimator searches both sides and keeps the best root',
  'The likelihood-based estimator looks for roots of the documented score function of the stored excesses on both sides of zero within the documented brackets, considers the exponential model and each root actually found, and returns the parameters and log-likelihood of the best of these candidates. A root search that failed never contributes a candidate.',
  ['inputs', 'histories'], 'any stored excesses, any combination of root-search outcomes',
  'tests verify parameters of one simulated sample within a coarse tolerance, which one root usually satisfies',
  ['src/estimator.c'], [('grimshaw_estimator', 'src/estimator.c'), ('brent', 'src/brent.c')], [], ['returned parameters and log-likelihood'],
  AI + '; root search and likelihood replaced by arbitrary results, searched function summarised as sums over a symbolic number of excesses')

p('P11', 'Moment estimates and log-likelihood follow their formulas on the stored data',
  'The moments estimator returns the generalised Pareto shape and scale matching the mean and variance of the stored excesses, together with their log-likelihood. The log-likelihood of any parameters is that of the generalised Pareto law over exactly the stored excesses, with the exponential form for a zero shape.',
  ['inputs', 'histories'], 'any number of stored excesses in any container state, any parameters',
  'tests evaluate a few random samples within a tolerance',
  ['src/estimator.c', 'src/tail.c', 'src/peaks.c'], [('mom_estimator', 'src/estimator.c'), ('log_likelihood', 'src/peaks.c')], [], ['returned numbers'],
  AI + '; loop summary (sum of logarithms over the stored values) compared with the formula')

from meta import more  # noqa: E402  (further properties)

NA = more.NA


def main():
    more.add(p, AI)
    from checks.registry import REG
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P + more.NAPROPS:
            f.write(json.dumps({k: x[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': [], 'not_applicable': [{'property': a, 'reason': r} for a, r in NA],
           'notes': more.NOTES}
    for x in P:
        e = REG.get(x['id'])
        if e is None:
            print('no check yet for', x['id'])
            continue
        man['checks'].append({'property': x['id'], 'quick_cmd': 'python3 bin/check.py %s --tier quick' % x['id'],
                              'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % x['id'],
                              'evidence_file': 'evidence/%s.json' % x['id'], 'technique': x['technique'], 'level': e['level'],
                              'level_note': x['note'] or more.NOTE.get(x['id'], more.DEFAULT_NOTE)})
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')


if __name__ == '__main__':
    main()
