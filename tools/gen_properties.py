"""Writes /verif/properties.jsonl (kept as a program so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
  assert len(title) <= 80, (id, len(title))
  P.append(dict(id=id, title=title, statement=statement,
    quantifier=dict(over=over, text=qtext), why_tests_cant=why,
    anchors=dict(files=files,
      mechanism=[dict(name=a, where=b) for a, b in mech],
      state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
      observe_at=list(observe), hook_needed=hook)))

A='python/dp_accounting/dp_accounting/'
p('C01','A failed or interrupted composition never erases spent privacy loss',
  'In the Python accounting library, when composing an event into an RDP or PLD accountant is refused, raises, or is interrupted at any point, every loss recorded by compositions that had completed before is still fully reported (epsilon and delta never fall below that of the completed compositions) and every completed composition is still in the ledger. A composition refused up front (unsupported event, wrong type, invalid count) leaves reported losses and the ledger exactly as they were. After the failure the accountant keeps accounting: later completed compositions add their loss on top.',
  ['histories','fault_sequences','crash_points'],
  'every accountant kind, neighbouring relation and event tree, every history of compositions, and every point inside a composition or query at which an exception (invalid leaf, allocation failure, interrupt) may surface',
  'Unit tests compose a few valid events, and a few invalid ones into empty accountants; none lets a composition fail half way after other loss was recorded, and none injects an exception inside the library.',
  [A+'privacy_accountant.py',A+'rdp/rdp_privacy_accountant.py',A+'pld/pld_privacy_accountant.py',A+'dp_event_builder.py'],
  [('dry-run traversal before any state change, then ledger before state','PrivacyAccountant.compose'),('saved and restored RDP around the inner event','RdpAccountant._maybe_compose, RepeatAndSelectDpEvent branch'),('state replaced in one assignment','PLDAccountant._maybe_compose')],
  [('_rdp','RDP spent so far per order','rdp_privacy_accountant.py'),('_pld, _contains_non_dp_event','composed privacy loss distribution','pld_privacy_accountant.py'),('_ledger','completed compositions','privacy_accountant.py')],
  ['get_epsilon','get_delta','ledger','rdp'])
p('C02','Reported loss depends only on which operations completed, not on the history',
  'For every RDP and PLD accountant, epsilon and delta (and the per-order RDP) after a history of compositions depend only on the multiset of composed events: any reordering, any batching through counts, any grouping through composed and self-composed events, and any interleaved queries, support checks or ledger reads give the same report up to rounding and the declared discretisation. Replaying the ledger into a fresh accountant of the same configuration gives the same report, queries never change it, and composing more never lowers it. The per-order RDP of a history is the sum of the RDP its events have on their own.',
  ['histories','inputs','configurations'],
  'all histories over all supported event types, counts, groupings, neighbouring relations, order grids and discretisations',
  'Tests check single events or one fixed composition against constants; equivalence over orderings, groupings and interleaved reads is an unbounded space.',
  [A+'privacy_accountant.py',A+'rdp/rdp_privacy_accountant.py',A+'pld/pld_privacy_accountant.py',A+'dp_event_builder.py'],
  [('additive RDP per order','RdpAccountant._maybe_compose'),('commutative PLD composition','PLDAccountant._maybe_compose'),('run-length ledger','DpEventBuilder')],
  [('_rdp','RDP per order','rdp_privacy_accountant.py'),('_pld','composed PLD','pld_privacy_accountant.py')],
  ['get_epsilon','get_delta','rdp','ledger'])
p('C03','The event builder is a faithful log and hands out stable snapshots',
  'The event a builder returns always denotes exactly the sequence of events and counts whose composition completed, in order, whatever the interleaving of compose and build calls and whatever calls failed in between. An event handed out earlier never changes when the builder is used further, and a rejected call (wrong type, count not a positive integer) leaves the builder unchanged.',
  ['histories','fault_sequences'],
  'all interleavings of compose (valid, rejected, interrupted) and build calls over all event trees and counts',
  'Tests build a handful of fixed sequences and read the result once at the end.',
  [A+'dp_event_builder.py',A+'privacy_accountant.py'],
  [('run-length list of (event, count) plus cached composed event, invalidated on append','DpEventBuilder.compose/build')],
  [('_event_counts, _composed_event','log and its cache','dp_event_builder.py')],
  ['DpEventBuilder.build','PrivacyAccountant.ledger'])
p('C04','Privacy accounting survives crash and restart from a persisted ledger',
  'A ledger or event tree converted to its named-tuple form, persisted (possibly re-encoded by the store, class and module names as bytes included) and converted back is equal to the original, and an accountant rebuilt from it reports the same loss as before the crash. With any crash, torn write or lost write between checkpoints, recovery from the last intact checkpoint never reports less than the compositions that checkpoint contains, and a damaged record is never silently turned into a different event. Deep-copied or pickled accountants, builders and events are independent and report the same loss.',
  ['crash_points','histories','fault_sequences'],
  'all event trees of every event type, all histories of compositions and checkpoints, and all crash points and storage faults between them',
  'Tests round-trip a few fixed events in memory; none persists, crashes, recovers and continues.',
  [A+'dp_event.py',A+'privacy_accountant.py',A+'dp_event_builder.py'],
  [('generic recursive conversion by attrs fields','DpEvent.to_named_tuple / from_named_tuple')],
  [('named tuple','durable form of an event','dp_event.py')],
  ['to_named_tuple','from_named_tuple','ledger','copy','pickle'])
p('C05','Privacy loss distributions are immutable values with a lawful composition',
  'Composing, self-composing or querying privacy loss distributions never changes an operand or any earlier result, also when the operation fails or is interrupted part way. Whatever the sequence of compositions, grouping, order and internal representation (sparse or dense, symmetric or not), the result has the epsilon and delta of the direct convolution of its factors: never below it by more than rounding and never above it by more than the declared truncation. Probability mass is conserved, delta is non-increasing in epsilon, and epsilon(delta) and delta(epsilon) are mutually consistent.',
  ['histories','fault_sequences','inputs'],
  'all programs of compose, self_compose and queries over pools of distributions built by every constructor, with allocation failures or interrupts inside any call',
  'Tests compose fixed pairs of distributions; aliasing, partial failure and representation changes along long histories are not sampled.',
  [A+'pld/privacy_loss_distribution.py',A+'pld/pld_pmf.py',A+'pld/common.py'],
  [('functional composition returning new objects','PrivacyLossDistribution.compose/self_compose, PLDPmf.compose/self_compose'),('sparse to dense switch','pld_pmf.compose_pmfs, SparsePLDPmf.self_compose'),('truncation moved to infinity mass','_truncate_tails, self_convolve')],
  [('_pmf_remove, _pmf_add','pmfs for both neighbouring directions','privacy_loss_distribution.py')],
  ['get_delta_for_epsilon','get_epsilon_for_delta','compose','self_compose'])
p('C06','Accounting objects used from concurrent threads do not interfere',
  'Accountants, builders, calibrations and privacy loss distributions owned by different threads yield, under every interleaving of those threads, exactly the results they yield when run alone, and read-only queries on a shared object from several threads return what a sequential caller would get. An exception or interrupt delivered to one thread does not change another thread\'s results.',
  ['schedules','fault_sequences'],
  'all interleavings, at source-line granularity inside the library, of 2 to 4 threads running arbitrary accounting programs',
  'No test runs two threads; a shared cache, module-level scratch buffer or temporarily modified shared state would pass every test.',
  [A+'privacy_accountant.py',A+'rdp/rdp_privacy_accountant.py',A+'pld/pld_privacy_accountant.py',A+'pld/pld_pmf.py',A+'pld/common.py',A+'mechanism_calibration.py',A+'dp_event_builder.py'],
  [('no module-level mutable state, per-instance state only','all accounting modules')],
  [],['get_epsilon','get_delta','ledger','rdp','calibrate_dp_mechanism'])
p('C07','Mechanism calibration never returns an over-budget parameter',
  'Whatever the accountant and event factory do (steps, plateaus, non-monotone or noisy epsilon, infinities, failures, discrete parameters, any bracket), calibration either raises or returns a parameter that it evaluated itself, with an accountant freshly made for that evaluation alone, at an epsilon not above the target for the target delta. It propagates failures of the callbacks, refuses accountants whose ledger is not empty, and ends after a bounded number of evaluations. When epsilon is monotone in the parameter, never undefined, and crosses the target once in the bracket, the result is within the tolerance (at least 1 for a discrete parameter) of the optimum and of integer type when discrete.',
  ['fault_sequences','inputs','histories'],
  'all epsilon curves (adversarial, noisy, step), brackets, tolerances, discreteness, and all failures of the callbacks at any evaluation',
  'Tests use a few smooth accountants; the fallback searches only matter on adversarial or noisy curves, and no test fails a callback part way.',
  [A+'mechanism_calibration.py'],
  [('re-evaluation of the root and fallback bisection keeping a non-positive endpoint','calibrate_dp_mechanism, _bisect'),('exponential bracket search with a bounded number of tries','_search_for_explicit_bracket_interval')],
  [],['calibrate_dp_mechanism return value, exceptions, callback invocations'])
p('C08','Monotone parameter search returns only verified points and stops',
  'Inverting a monotone function over given bounds, guess, tolerance and discreteness returns a point whose function value does not exceed the target and that lies within the tolerance of the extreme such point, or None exactly when the range has no such point. It makes a number of evaluations logarithmic in the range over the tolerance, never evaluates outside the range extended by the guess doubling, and propagates an evaluation failure unchanged, so that a retry gives the same answer. The calibrations built on it (smallest Laplace, discrete Laplace, Gaussian and subsampled Gaussian noise, mechanisms made from a privacy guarantee) return noise that keeps the requested budget for the requested number of queries, sensitivity and sampling, for removed as for added records, and that is not noticeably more than needed, whatever was calibrated or interrupted before.',
  ['inputs','fault_sequences'],
  'all monotone functions (continuous, step, plateau, infinite), bounds, guesses, tolerances and failing evaluations; all budgets, mechanisms and histories of calibrations',
  'Tests invert four fixed functions.',
  [A+'pld/common.py',A+'pld/accountant.py',A+'pld/privacy_loss_mechanism.py'],
  [('guess doubling then bisection maintaining the side invariant','inverse_monotone_function'),('search over distributions, closed forms','get_smallest_*_noise, *PrivacyLoss.from_privacy_guarantee')],[],['return value and callback invocations'])
C='learning/clustering/'
p('C09','Private clustering sees the data only through its noisy releases',
  'Everything the private clustering pipeline returns or decides (tree shape, nodes, coreset, centres, number of random draws and their order) is a function of its parameters, its random bits and the noisy counts and averages it released: two datasets whose noisy releases coincide under the same random bits yield identical private outputs. In particular no exact count, sum, average or point reaches a branching decision or the released output except by way of a fresh noise draw.',
  ['inputs','schedules','histories'],
  'all datasets and neighbours with finite coordinates, all parameters, and all outcomes of the random draws',
  'Tests check shapes and a few fixed values; a raw value leaking into one branch or one coordinate is invisible to them because its numeric effect is masked by noise.',
  [C+'clustering_algorithm.py',C+'lsh_tree.py',C+'lsh.py',C+'central_privacy_utils.py',C+'clustering_params.py',C+'default_clustering_params.py'],
  [('noisy count and noisy average properties cached per node','lsh_tree.LshTreeNode'),('noisy-count-only branching','lsh_tree.LshTree')],
  [('LshTreeNode','node holding private points and its released values','lsh_tree.py')],
  ['private_lsh_clustering','get_private_coreset','LshTree'])
p('C10','Private clustering spends at most the privacy budget it was given',
  'On every run the noise actually drawn by the private clustering pipeline is calibrated so that, with each data point clipped to the declared radius and contributing to at most one count per tree level and one average, the total loss of all releases composed is at most the caller\'s epsilon and delta. This holds for every split of the budget, every depth and every dimension, in every run and not just on average.',
  ['inputs','configurations','histories'],
  'all budgets, splits, depths, dimensions, radii and datasets of finite coordinates, including points outside the radius',
  'Tests compare the noise parameters with the formulas that produce them; no test derives the spend from the noise actually drawn.',
  [C+'privacy_calculator.py',C+'central_privacy_utils.py',C+'clustering_params.py',C+'lsh_tree.py',C+'clustering_algorithm.py',C+'default_clustering_params.py'],
  [('joint calibration of the count and sum noise and its validation','privacy_calculator.PrivacyCalculator'),('radius clipping','clustering_params.Data.clip_by_radius')],
  [],['random generator calls','outputs'])
p('C11','Each private clustering quantity is drawn once; failures expose nothing raw',
  'For every node of the private tree the noisy count is drawn at most once and the noisy average at most once, and every later read returns that same value, whatever the order of reads, tree operations and failed reads. If drawing randomness fails at any point, the failing operation raises, and nothing computed without noise is returned, cached or used afterwards; a retry draws fresh noise.',
  ['histories','fault_sequences'],
  'all orders of reads and tree operations, and all points at which the random source or an allocation fails',
  'Tests read a value once with a working generator; averaging attacks through re-draws and fallback values on failure are not exercised.',
  [C+'lsh_tree.py',C+'central_privacy_utils.py',C+'clustering_algorithm.py'],
  [('memoised private values','LshTreeNode.get_private_count, get_private_average')],
  [('private_count, private_average','released values per node','lsh_tree.py')],
  ['LshTreeNode.get_private_count','LshTreeNode.get_private_average'])
p('C12','The private tree partitions the data and branches by the released counts only',
  'At every level of a private tree the points of the nodes are disjoint and together hold exactly the points of the parents that were split minus those of children dropped for their noisy count, every point sits under the node of its own hash prefix, and the leaves of a finished tree together hold every point that was not filtered by a noisy count. A node is kept, split or dropped by comparing its released noisy count with the configured thresholds, and the depth never exceeds the maximum, for every outcome of the noise.',
  ['inputs','histories','fault_sequences'],
  'all datasets, hash outcomes, noise outcomes (including negative and huge counts), thresholds and depths',
  'Tests use toy trees with fixed hashes and no extreme noise.',
  [C+'lsh_tree.py',C+'lsh.py',C+'clustering_params.py'],
  [('children by hash bit','LshTreeNode.children'),('level-wise growth','LshTree.__init__')],
  [('leaves, tree','levels of the tree','lsh_tree.py')],['LshTree.leaves','LshTree.tree','LshTreeNode fields'])
D='python/dp_auditorium/dp_auditorium/'
p('C13','An audit run reports exactly what its trials found, whatever fails on the way',
  'For every sequence of datasets, estimates and component failures, an audit run reports a privacy violation exactly when its tester rejected the estimate of the last inspected trial, lists the estimates of the inspected trials in order, each the larger of both directions computed from the mechanism\'s samples on that trial\'s own two datasets, and inspects at most the configured number of trials, stopping at the first rejection. The dataset generator is told nothing first and then, once each, the result of the previous trial of the same run. A failing component surfaces as an exception and never as a result, and later runs of the same runner do not depend on earlier or failed ones.',
  ['histories','fault_sequences'],
  'all sequences of trial outcomes and of component failures at any call, all post-processings and sample counts, repeated runs of one runner',
  'Tests use one fixed mock sequence with no failure.',
  [D+'privacy_test_runner.py',D+'interfaces.py',D+'configs/privacy_test_runner_config.py'],
  [('trial loop feeding back results','PrivacyTestRunner.test_privacy')],[],['PrivacyTestRunner.test_privacy result','calls received by the components'])
p('C14','The optimiser-driven dataset generators complete every trial once',
  'The optimiser-backed dataset generators report each suggested trial to the optimiser exactly once, with the result given for the datasets built from that very trial, for every result value including zero and negative ones, before asking for the next suggestion. When the optimiser returns no suggestion or fails, the generator raises; after a failure a repeated call neither reports a trial twice nor loses or misattributes a result. The returned datasets are always neighbours built from the suggested parameters.',
  ['histories','fault_sequences'],
  'all sequences of results (zero, negative, infinite, none yet), optimiser failures at any call, retries and empty suggestion lists, all generator classes and sizes',
  'Tests drive the generator with one or two positive results against a working optimiser.',
  [D+'generators/vizier_dataset_generator.py',D+'generators/classification_dataset_generator.py',D+'generators/pipeline_dp_vizier_dataset_generator.py'],
  [('complete the last trial before suggesting the next','VizierDatasetGenerator.__call__')],
  [('last trial','trial whose result is pending','vizier_dataset_generator.py')],['calls on the study client','returned datasets'])
p('C15','Audited mechanisms stay within their budget, each sample on its own noise',
  'The mechanisms shipped for auditing answer every batch of samples as if each sample were run alone on noise of its own at the documented scale: the sparse vector mechanisms give an answer for each query until the allowed number of queries were answered above the threshold and nothing afterwards, noisy max returns the element with the largest noisy count, the mean mechanism adds the documented noise to the clipped mean. This holds for every noise outcome (ties, extremes), after failed draws and over repeated calls, and the dataset and earlier samples are left unchanged.',
  ['inputs','fault_sequences','histories'],
  'all datasets, budgets, numbers of queries and samples, all outcomes of the random generator and failures of it at any draw, all sequences of calls',
  'Tests use one generator seed with almost no noise and look at shapes.',
  [D+'mechanisms/sparse_vector_technique.py',D+'mechanisms/noisy_max.py',D+'mechanisms/mean.py'],
  [('per-sample count of answered queries','AbstractSVTMechanism.__call__'),('noisy counts','NoisyMaxMechanism.__call__')],
  [],['draws requested from the random generator','returned samples'])
G='go/'
p('G01','Sharded Go aggregation releases what a single aggregator would',
  'For every Go aggregation (count, sums, mean, variance, standard deviation, quantiles, partition selection), splitting the input among shards in any way, serialising and restoring any shard any number of times at any point, and merging in any tree order hands the noise mechanism exactly the value, sensitivities and privacy parameters that one unsharded aggregator over the same input would, and gives the same result for the same noise. Merging incompatible aggregators is refused and changes neither.',
  ['histories','schedules','fault_sequences','crash_points'],
  'all inputs, shardings, merge orders, serialisation points, retried serialisations, lost workers and restarts',
  'Tests merge two aggregators and serialise once; retries, chains and parameter drift across restore and merge are not sampled.',
  [G+'dpagg/count.go',G+'dpagg/sum.go',G+'dpagg/mean.go',G+'dpagg/variance.go',G+'dpagg/standard_deviation.go',G+'dpagg/quantiles.go',G+'dpagg/select_partition.go',G+'dpagg/coders.go'],
  [('Merge with equal-initialisation check','dpagg *.Merge / checkMerge*'),('gob encode and decode of state and parameters','dpagg *.GobEncode/GobDecode')],
  [('state','Default, Merged, Serialized, ResultReturned','dpagg/aggregation_state.go')],['noise.Noise calls','Result','GobEncode','GobDecode'])
p('G02','A Go aggregator releases at most once and is dead after hand-over',
  'Once a Go aggregator has released its result, been merged into another or been serialised, every further amendment, merge, release or (unless already serialised) serialisation returns an error and consumes or reveals nothing, whatever the order of calls and whichever calls failed before. A release is attempted at most once per aggregator even if the noise mechanism fails, a quantile tree draws noise at most once per node over all ranks, and no error path returns a value computed without noise.',
  ['histories','fault_sequences'],
  'all sequences of API calls on all aggregation types with failures of the noise mechanism at any call',
  'Tests check single forbidden transitions; sequences and failing noise are not covered.',
  [G+'dpagg/aggregation_state.go',G+'dpagg/count.go',G+'dpagg/sum.go',G+'dpagg/mean.go',G+'dpagg/variance.go',G+'dpagg/standard_deviation.go',G+'dpagg/quantiles.go',G+'dpagg/select_partition.go'],
  [('aggregation state machine checked on entry and set before noising','dpagg *.Result/Add/Merge/GobEncode'),('memoised noised tree','BoundedQuantiles.getNoisedCount')],
  [('state','aggregation state','dpagg/aggregation_state.go')],['errors and values of every API call','noise.Noise calls'])
p('G03','Go noise consumes secure random bits once each and fails closed',
  'Under every interleaving of concurrent callers and every short or slow read of the system random source, each random bit handed out by the Go library comes from the secure source, is delivered to at most one caller, and no caller receives zero-filled, repeated or stale bits. If the source fails, the process stops or the call fails; noise is never produced from missing randomness.',
  ['schedules','fault_sequences'],
  'all interleavings of concurrent draws of every kind and all short reads, delays and failures of the random source',
  'Tests are statistical and single-threaded with a working source; duplicated or stale bits under contention or after short reads are invisible to them.',
  [G+'rand/rand.go',G+'noise/laplace_noise.go',G+'noise/gaussian_noise.go'],
  [('one locked buffered reader over the secure source with full reads','rand.readRandBuf'),('locked bit buffer','rand.Boolean')],
  [('randBuf, randBitBuf, randBitPos','buffered random bytes and bits','rand/rand.go')],['bytes requested from the source','values returned'])
p('G04','Damaged or partial Go aggregator checkpoints are rejected, not misread',
  'Restoring a Go aggregator from a checkpoint that was cut short at any byte, is empty, or belongs to a different aggregation type returns an error and leaves the receiving aggregator exactly as it was; restoring from an intact checkpoint succeeds regardless of the receiver\'s previous content. Recovery from the last intact checkpoint after a crash at any point releases a value over exactly the contributions acknowledged in that checkpoint.',
  ['crash_points','fault_sequences'],
  'all aggregation types and states, every truncation point of every checkpoint, and crashes between checkpoints',
  'Tests decode only what was just encoded.',
  [G+'dpagg/coders.go',G+'dpagg/count.go',G+'dpagg/sum.go',G+'dpagg/mean.go',G+'dpagg/variance.go',G+'dpagg/standard_deviation.go',G+'dpagg/quantiles.go',G+'dpagg/select_partition.go'],
  [('decode into a scratch value, then replace the receiver in one assignment','dpagg *.GobDecode')],[],['GobDecode errors','subsequent results'])
p('G05','Every Go release is bounded, noised once per statistic and within budget',
  'Whatever the sequence of inputs (out of bounds, NaN, infinite, extreme), each statistic a Go aggregation releases reaches the noise mechanism exactly once, with sensitivities that bound the change one privacy unit can cause under the configured contribution limits, and with privacy parameters that over all its statistics sum to at most the configured epsilon and delta. The released value is computed only from the noised statistics, and stays in the configured output bounds. A thresholded result or a partition selection reveals what a single privacy unit supports with probability at most the configured delta.',
  ['inputs','configurations','fault_sequences'],
  'all configurations, input sequences and outcomes of the noise mechanism, including extreme ones',
  'Tests assert a few constructor fields and a few results with no noise.',
  [G+'dpagg/count.go',G+'dpagg/sum.go',G+'dpagg/mean.go',G+'dpagg/variance.go',G+'dpagg/standard_deviation.go',G+'dpagg/quantiles.go',G+'dpagg/select_partition.go'],
  [('clamping on entry','dpagg *.Add, ClampFloat64, ClampInt64'),('budget split among sub-aggregations','NewBoundedMean, NewBoundedVariance'),('sensitivity derivation','getLInfInt, getLInfFloat')],
  [],['noise.Noise calls','Result'])
p('G06','Go noise has the law of its parameters and hides the low bits of its input',
  'The Go Laplace and Gaussian mechanisms add noise whose law is the one epsilon, delta and the sensitivities prescribe, to integers and to doubles, independently from draw to draw, however the system random source splits its answers; noised values lie on a grid that the parameters alone fix, so low bits of the input never show. Confidence intervals hold the declared mass of that law, a threshold is the least that lets a single privacy unit show up with at most the given delta over all its partitions, the delta reported for a threshold is that probability, the Gaussian deviation is the least (within one percent) that gives epsilon and delta, and impossible parameters are refused.',
  ['inputs','configurations','fault_sequences'],
  'both mechanisms, parameters over many magnitudes, integer and double inputs, random bytes',
  'Tests sample a few scales with wide tolerances and never look at the grid.',
  [G+'noise/laplace_noise.go',G+'noise/gaussian_noise.go',G+'noise/secure_noise_math.go',G+'rand/rand.go'],
  [('granularity and geometric or binomial sampling','addLaplaceFloat64, addGaussianInt64, symmetricBinomial'),('rounding the input to the grid','roundToMultipleOfPowerOfTwo, roundToMultiple'),('deviation search','SigmaForGaussian'),('thresholds','Threshold, DeltaForThreshold')],
  [],['AddNoiseInt64','AddNoiseFloat64','ComputeConfidenceInterval*','Threshold'])
p('G07','Go confidence intervals cover the statistic and use released values alone',
  'The interval that a Go count, sum or mean reports for a release contains the statistic without noise (of the clamped entries) at least as often as declared. It is a function of the noised values, the parameters and alpha alone: the one the noise implies around the released value, trimmed to the possible values, and for a mean one that some split of alpha over count and sum implies and no wider than equal shares give. It is refused before the release, after a hand-over and for levels outside (0, 1), and asking again gives the same answer.',
  ['inputs','configurations','histories'],
  'all counts, sums and means, options, entries, splits and restores before the release, noise outcomes and levels',
  'Tests compare a few intervals with constants and mocked parts.',
  [G+'dpagg/count.go',G+'dpagg/sum.go',G+'dpagg/mean.go',G+'noise/laplace_noise.go',G+'noise/gaussian_noise.go'],
  [('split of alpha between numerator and denominator','BoundedMean.ComputeConfidenceInterval, computeConfidenceIntervalForExplicitAlphaNum'),('trimming','Count.ComputeConfidenceInterval, BoundedSum*.ComputeConfidenceInterval')],
  [('noisedCount, noisedSum','released values','dpagg/count.go, dpagg/sum.go')],['ComputeConfidenceInterval'])
# ---- Privacy on Beam
B='privacy-on-beam/pbeam/'
PB=[B+x for x in ('aggregations.go','count.go','sum.go','mean.go','variance.go','quantiles.go','distinct_id.go','distinct_per_key.go','select_partitions.go','public_partitions.go')]
p('P01','A pbeam release depends on one privacy unit only as far as its noise covers',
  'For every pipeline (any aggregation, input types, parameters, public or private partitions, any ParDo before it), removing all records of one privacy unit changes the statistics that reach the noise mechanism, over all partitions together, by at most the sensitivities the mechanism is told; every released value is noised, with privacy parameters that sum to at most the aggregation\'s budget, and those parameters do not depend on the data. With equal noise outcomes two such datasets release equal values. This holds however the runner bundles, retries, merges and serialises the work.',
  ['inputs','configurations','schedules','fault_sequences'],
  'all datasets, units, pipelines, parameters, runner schedules and retries',
  'Tests run small fixed datasets on a direct runner and check noisy values within statistical tolerances.',
  PB+[B+'pardo.go',B+'coders.go'],
  [('cross-partition and per-partition bounding','boundContributions'),('combine functions that own the noise','boundedSumInt64Fn, boundedSumFloat64Fn, boundedMeanFn, boundedVarianceFn, boundedQuantilesFn, countFn')],
  [],['noise.Noise calls','outputs of the pipeline'])
p('P02','pbeam releases exactly the public partitions, or privately selected ones',
  'With public partitions the output holds exactly those partitions, once each, whether or not they occur in the data and whatever else occurs. Otherwise a partition is released at most once, only if it occurs in the data with at least the pre-threshold of distinct privacy units, and only by a private selection over the number of its privacy units: the probability to keep it is that of the optimal mechanism, or the noised count passes the threshold, for the configured epsilon, delta and number of partitions per unit.',
  ['inputs','configurations','schedules','fault_sequences'],
  'all datasets, partition lists, selection parameters and runner schedules',
  'Tests check that large partitions are kept and tiny ones dropped.',
  PB,[('selection in combine functions','partitionSelectionFn, ExtractOutput'),('empty and dropped public partitions','dropNonPublicPartitions, mergeResultWithEmptyPublicPartitionsFn')],
  [],['uniform draws and noise.Noise calls of the selection','outputs of the pipeline'])
p('P03','A pbeam pipeline never obtains more than its privacy budget',
  'The aggregations attached to one PrivacySpec, to the same or to different collections, one after another or concurrently, together never obtain more epsilon or delta, for aggregation or for partition selection, than the specification holds: the one that would exceed it is refused when the pipeline is constructed, and the entire budget is granted only if nothing was consumed before. Shares that add up to the budget, up to rounding, are all granted. Invalid specifications and aggregation parameters are refused at construction.',
  ['histories','schedules','configurations'],
  'all sequences and interleavings of aggregations and all splits of the budget',
  'Tests check one Count after another, and the split by three.',
  [B+'pbeam.go']+PB,[('budget ledger','privacyBudget.consume, get'),('parameter checks','check*Params, checks')],
  [('epsilon, delta, partiallyConsumed','remaining budget','pbeam.privacyBudget')],['log.Fatal at construction'])
p('P04','pbeam results do not depend on how the runner executes the pipeline',
  'Given the same noise outcomes and the same selection of contributions, a pipeline releases the same partitions and values however its runner bundles elements, lifts and merges combiners, serialises accumulators, crashes and retries work; and where no contribution has to be dropped they equal the statistics of the data (counts, distinct privacy units and values, clamped sums, means and variances, quantiles up to the tree\'s resolution), for every key and value type, every form of ParDo and both test modes.',
  ['inputs','configurations','schedules','fault_sequences'],
  'all datasets, types, pipelines and runner schedules',
  'Tests run the direct runner, which neither splits accumulators nor serialises or retries them.',
  PB+[B+'pardo.go',B+'coders.go','privacy-on-beam/internal/kv/kv.go'],
  [('accumulator merging and encoding','MergeAccumulators, coders.go'),('re-keying and codecs','kv.Codec, rekey*, decode*')],
  [('accumulators','partial aggregates','pbeam *Accum')],['outputs of the pipeline'])
# ---- C++ building-block library
CA='cc/algorithms/'
XA=[CA+f for f in ('algorithm.h','count.h','bounded-sum.h','bounded-mean.h','bounded-mean-ci.h','bounded-variance.h','bounded-standard-deviation.h','quantiles.h','quantile-tree.h','approx-bounds.h','order-statistics.h','binary-search.h')]
p('X01','C++ partial summaries merged in any way equal one aggregation of all entries',
  'In the C++ library, entries may be spread over any number of aggregations of one configuration, which are serialised, merged in any order and grouping, lost in a crash and rebuilt from summaries: the final aggregation stands for exactly the entries whose summaries it merged or added itself. With the same noise outcomes it releases the same value, error or interval, builds the same mechanisms and noises the same raw values as a single aggregation that was given these entries directly; merging a summary never changes the summary\'s source, and merging it twice counts it twice.',
  ['histories','inputs','configurations','fault_sequences','crash_points'],
  'all algorithms (count, sum, mean, variance, standard deviation, quantiles, quantile tree, approximate bounds, order statistics), element types, parameters, entries, shardings, merge orders and crash points',
  'Tests merge two small summaries of one type once and compare one number.',
  XA+['proto/summary.proto','cc/proto/util.h'],
  [('state to summary and back','Serialize/Merge of each algorithm'),('per-bin partial sums of the approximate bounds','ApproxBounds::Merge, AddMultipleEntries')],
  [('partial sums, counts, bins','aggregated entries','fields of each algorithm')],['Serialize','Merge','PartialResult'])
p('X02','C++ aggregations release once; failed merges and resets leave no trace',
  'A C++ aggregation releases a result at most once until it is reset: a second request is refused without building or drawing noise. A merge that is refused (summary of another algorithm, other bounds, missing or damaged data) and a release that fails leave the aggregation standing for exactly the entries it stood for; a summary that cannot be parsed is refused, not crashed on. After Reset nothing of earlier entries, merges, bounds or releases is left: the next release is that of a new aggregation. A privatised quantile tree answers from the state at its creation, noises each node count at most once, gives the same answer to the same question, and its answers do not depend on what was asked before.',
  ['histories','inputs','configurations','fault_sequences'],
  'all algorithms, types and parameters, all histories of adds, releases, resets, interval queries and merges of intact and damaged summaries',
  'Tests check a second PartialResult and one Reset per algorithm, and a few wrong summaries into empty aggregations whose state is not looked at afterwards.',
  XA,
  [('released flag','Algorithm::PartialResult, Reset'),('checks before merging','Merge of each algorithm'),('noised node counts kept per privatised tree','QuantileTree::Privatized')],
  [('result_returned_','whether the budget is spent','algorithm.h'),('noised_tree_','noised counts','quantile-tree.h')],
  ['PartialResult','Merge','Reset','GetQuantile','ComputeNoiseConfidenceInterval'])
p('X03','C++ results show entries only through noise that covers one user\'s change',
  'For two data sets that differ by the entries of one user (at most max contributions per partition), every value that influences the result, error or interval of a C++ algorithm passes through a noise mechanism: given the same noised values the outputs are identical, and the same mechanisms with the same parameters are used. No raw value moves by more than the sensitivity its mechanism was built for (per value, and in the L1 or L2 norm over all values it noises, within one partition), the variance of each mechanism is enough for its sensitivity, epsilon and delta, and the mechanisms together spend at most the epsilon and delta of the algorithm. Results lie in the range the bounds promise.',
  ['inputs','configurations','histories'],
  'all algorithms, element types, parameters (also automatic bounds and Gaussian noise), data sets, user changes including NaN, infinities and far outliers, and noise outcomes',
  'Tests look at single data sets; the guarantee relates the releases of two data sets for every noise outcome.',
  XA+[CA+'numerical-mechanisms.h',CA+'numerical-mechanisms.cc',CA+'bounds-provider.h',CA+'approx-bounds-as-bounds-provider.h'],
  [('clamping before summing','AddEntry of each algorithm'),('sensitivities given to the mechanism builders','BuildAlgorithm, BuildMechanismForSum'),('budget split between bounds and value','Builder::BuildAlgorithm')],
  [],['inputs of AddNoise','parameters of the mechanism builders','PartialResult'])
p('X04','The C++ random source hands out each word once and fails closed',
  'SecureURBG gives every caller, in any interleaving of threads, words that its entropy source delivered, each at most once and complete, across any number of buffer refreshes; no schedule deadlocks. When the entropy source fails, no caller receives a word from the failed or an earlier, already used buffer: the process ends instead. UniformDouble lies in [0, 1) and is computed from its random words by the documented exponent-and-mantissa construction.',
  ['schedules','fault_sequences','inputs'],
  'all interleavings of threads at memory accesses, locks and entropy reads, all failures of the entropy source, all random words',
  'Tests draw from one thread with a working entropy source.',
  [CA+'rand.h',CA+'rand.cc'],
  [('buffer, position and lock','SecureURBG::operator(), RefreshBuffer'),('bits to double','UniformDouble')],
  [('buffer_, current_index_','undelivered words','rand.h')],['SecureURBG::operator()','UniformDouble'],'none in /repo: rand.* is compiled with a simulated mutex and load/store callbacks')
p('X05','C++ partition selection keeps a user\'s presence within its epsilon and delta',
  'Near-truncated-geometric, Laplace and Gaussian partition selection and pre-thresholding in C++: adding one user changes the probability of keeping a partition by no more than the factor e^(epsilon/partitions) plus the per-partition delta, in both directions, at every count of users; more users never make keeping less likely; below the pre-threshold nothing is kept. Decisions drawn from the random source follow these probabilities, and a noised count is released only at or above the threshold with the same probability.',
  ['inputs','configurations'],
  'all strategies, epsilon and delta (tiny, large, close to 0 and 1), numbers of partitions up to 2^32 and beyond, pre-thresholds, user counts and random words',
  'Tests compare probabilities with constants at a few parameters.',
  [CA+'partition-selection.h',CA+'numerical-mechanisms.h'],
  [('crossover points and tail formulas','NearTruncatedGeometricPartitionSelection'),('thresholds','CalculateThreshold of Laplace and Gaussian selection'),('adjusted delta','CalculateAdjustedDelta')],
  [],['ShouldKeep','ProbabilityOfKeep','NoiseValueIfShouldKeep'])
p('X06','C++ noise has the law of its parameters and hides the low bits of its input',
  'A C++ Laplace, Gaussian or minimum-variance mechanism, however it was built (directly, from a cloned builder, or serialised and restored), adds noise whose law is the one its epsilon, delta and sensitivities (or deviation) prescribe, to integers and to doubles, independently from draw to draw; noised doubles lie on a grid that the parameters alone fix, so low bits of the input never show. The reported variance, distribution function, quantiles and confidence intervals are those of the same law, the Gaussian deviation is the least (within one percent) that gives epsilon and delta, and impossible parameters are refused.',
  ['inputs','configurations','histories'],
  'all mechanisms, parameters over many magnitudes, integer and double inputs, random words',
  'Tests sample a few scales with wide tolerances and never look at the grid.',
  [CA+'numerical-mechanisms.h',CA+'numerical-mechanisms.cc',CA+'distributions.h',CA+'distributions.cc',CA+'internal/gaussian-stddev-calculator.cc','third_party/cephes/inverse_gaussian_cdf.cc'],
  [('granularity and geometric or binomial sampling','LaplaceDistribution::Sample, GaussianDistribution::Sample'),('rounding the input to the grid','AddDoubleNoise, AddInt64Noise'),('deviation search','CalculateGaussianStddev')],
  [],['AddNoise','GetVariance','Cdf','Quantile','NoiseConfidenceInterval','Serialize'])
p('X07','C++ results are the statistic of the clamped entries, moved only by the noise',
  'Given the values its mechanism returned, a C++ aggregation releases the statistic its documentation promises of the entries it was given, clamped to the manual bounds or to the bounds that the logarithmic histogram of the entries implies, with entries that are not numbers ignored; order statistics and quantiles are within the resolution of their search; the bounding report gives those bounds and counts; the interval reported with a count or a sum is that of the noise, and that of a mean is one that some split of the level over count and sum implies. This holds however the entries were added: one at a time, in runs, or through merged summaries.',
  ['inputs','configurations','histories'],
  'all aggregations, numeric types, bounds set or found, orders and splits of the entries',
  'Tests use a few small data sets.',
  [CA+'bounded-sum.h',CA+'bounded-mean.h',CA+'bounded-variance.h',CA+'count.h',CA+'order-statistics.h',CA+'approx-bounds.h',CA+'quantile-tree.h'],
  [('clamping on entry','BoundedSum*::AddEntry, BoundedMean*::AddEntry'),('bounds from the histogram','ApproxBounds::GenerateResult, AddToPartialSums'),('search of the quantile','BinarySearch::BayesianSearch, QuantileTree::ComputeQuantile')],
  [],['Result','PartialResult','BoundingReport'])
# ---- Java library
J='java/main/com/google/privacy/differentialprivacy/'
JA=[J+x for x in ('Count.java','BoundedSum.java','LongBoundedSum.java','BoundedMean.java','BoundedVariance.java','BoundedQuantiles.java')]
p('J01','Sharded Java aggregation releases what a single aggregator would',
  'For every Java aggregator (count, sums, mean, variance, quantiles, approximate bounds, partition selection), splitting the entries among workers in any way, handing serialised summaries over in any tree order, and losing or repeating workers whose summaries were not merged hands the noise exactly the values and parameters that one aggregator of the same entries would, and gives the same result for the same noise. A summary that was handed over can be read more than once with the same meaning, and merging does not change the summary.',
  ['histories','schedules','fault_sequences','crash_points'],
  'all entries, splits, merge orders, hand-over points, lost workers and repeated deliveries',
  'Tests merge two aggregators of a few entries once.',
  JA+[J+'ApproximateBounds.java',J+'PreAggSelectPartition.java','proto/summary.proto'],
  [('merge of parsed summaries with parameter checks','*.mergeWith'),('serialised state','*.getSerializableSummary')],
  [('state','DEFAULT, SERIALIZED, RESULT_RETURNED','*.java')],['Noise calls','computeResult','getSerializableSummary'])
p('J02','A Java aggregator releases once, is dead after hand-over, and fails closed',
  'Once a Java aggregator has released its result or has been handed over as a summary, every further entry, merge, release or summary is refused and reveals nothing, whatever was called before and whichever calls failed; intervals need an earlier release. A summary that is damaged, foreign or was made with other parameters is refused and leaves the aggregator as it was. Asking a quantile again gives the same answer without more noise. If the noise or the random source fails, no value is released.',
  ['histories','fault_sequences'],
  'all sequences of calls on all aggregators, damaged and foreign summaries, failures of noise and random source at any call',
  'Tests check single forbidden calls on fresh aggregators.',
  JA+[J+'ApproximateBounds.java',J+'PreAggSelectPartition.java'],
  [('life-cycle state checked before and set before noising','*.computeResult, *.mergeWith'),('memoised noised tree','BoundedQuantiles.getNoisedCount')],
  [('state','DEFAULT, SERIALIZED, RESULT_RETURNED','*.java')],['exceptions and values of every call','Noise calls'])
p('J03','Every Java release is bounded, noised once per statistic and within budget',
  'Whatever the entries (out of bounds, NaN, infinite, extreme), each statistic that a Java aggregator releases reaches the noise exactly once, with sensitivities that bound the change one privacy unit can cause under the configured contribution limits, and with epsilon and delta that over all its statistics sum to at most the configured ones. The released value is computed from the noised statistics alone, is the statistic of the clamped entries when the noise is zero, and stays inside the configured bounds. A count released above a threshold shows a single privacy unit with probability at most the threshold delta.',
  ['inputs','configurations','fault_sequences'],
  'all configurations, entries and outcomes of the noise, including extreme ones',
  'Tests assert a few calls of a mocked noise and a few results without noise.',
  JA+[J+'DpPreconditions.java'],
  [('clamping on entry','*.addEntry, clamp'),('budget split','BoundedMean, BoundedVariance builders'),('sensitivity','LongBoundedSum, BoundedQuantiles, Count')],
  [],['Noise calls','computeResult','computeThresholdedResult'])
p('J04','Java noise has the law of its parameters, its intervals cover, low bits hide',
  'The Java Laplace, Gaussian and discrete Laplace mechanisms add noise whose law is the one epsilon, delta and the sensitivities prescribe, to integers and to doubles, independently from draw to draw; noised values lie on a grid that the parameters alone fix, so low bits of the input never show. Quantiles and confidence intervals are those of that law: intervals reported with a count, sum or mean contain the value without noise at least as often as declared. The Gaussian deviation is the least (within one percent) that gives epsilon and delta; impossible parameters are refused; a failing random source never yields a value.',
  ['inputs','configurations','fault_sequences'],
  'all mechanisms, parameters over many magnitudes, integer and double values, random bytes, failures of the random source',
  'Tests sample a few scales with wide tolerances.',
  [J+'LaplaceNoise.java',J+'GaussianNoise.java',J+'DiscreteLaplaceNoise.java',J+'SamplingUtil.java',J+'SecureNoiseMath.java'],
  [('granularity and geometric or binomial sampling','LaplaceNoise.addNoise, GaussianNoise.addNoise, SamplingUtil'),('rounding to the grid','SecureNoiseMath.roundToMultipleOfPowerOfTwo'),('deviation search','GaussianNoise.getSigma')],
  [],['addNoise','computeConfidenceInterval','computeQuantile'])
p('J05','Java partition selection and approximate bounds keep their delta and their law',
  'For every epsilon, delta, pre-threshold, noise and number of partitions, the probability with which Java partition selection keeps a partition changes between neighbouring numbers of ids by no more than epsilon and delta over all partitions allow; a partition below the pre-threshold, or empty, is never kept, and no partition is kept much less often than the best selection for the budget. Approximate bounds are the bins whose noised count exceeds the threshold of the documented rule; on empty data a bound is found with at most the documented probability, and each histogram bin is noised once with sensitivities that cover one privacy unit.',
  ['inputs','configurations','histories'],
  'all parameters over many magnitudes, partition sizes, data sets and random outcomes',
  'Tests look at a few parameters and a few sizes.',
  [J+'PreAggSelectPartition.java',J+'ApproximateBounds.java',J+'GaussianNoise.java',J+'Count.java'],
  [('closed form of the optimal selection','PreAggSelectPartition.shouldKeepPartition, getHardThreshold'),('histogram of powers of two','ApproximateBounds')],
  [],['shouldKeepPartition','computeResult'])
# ---- not applicable to the technique
# ---- C++ accounting
AC='cc/accounting/'
p('A01','C++ privacy loss ledgers add up to what was spent, however they were built',
  'Whatever sequence of compositions, self-compositions, merges, hand-overs as bytes, refused or failing operations and restarts from the stored bytes built a C++ privacy loss distribution, its delta, its epsilon and its delta for composition with another one are those of the direct composition of the mechanisms it holds: for pessimistic distributions never below, and above by no more than the tail mass the caller allowed to be cut off; for optimistic ones the other way round. A mechanism\'s distribution lies between its true delta and the true delta one discretisation interval away. Refused operations change nothing, only pessimistic distributions are stored, and what is restored equals what was stored.',
  ['histories','fault_sequences','crash_points','inputs'],
  'all mechanisms, discretisations, tail masses, histories of operations, allocation failures and restarts',
  'Tests compose two small distributions once and compare with constants.',
  [AC+'privacy_loss_distribution.cc',AC+'convolution.cc',AC+'privacy_loss_mechanism.cc',AC+'common/common.cc'],
  [('validation before change, then convolution','PrivacyLossDistribution::Compose, Convolve'),('tail cut by moment bounds','ComputeConvolutionTruncationBounds'),('serialised state','PrivacyLossDistribution::Serialize, Deserialize')],
  [('probability_mass_function_, infinity_mass_','the ledger','privacy_loss_distribution.h')],
  ['GetDeltaForEpsilon','GetEpsilonForDelta','Compose','Serialize'])
p('A02','C++ calibration searches stop, keep the budget and do not hide failures',
  'Every C++ search for a parameter (inverse of a monotone function, least noise of a mechanism for a budget, advanced composition, smallest noise for a composed budget) ends in a bounded number of evaluations and returns a parameter that keeps the budget and is within its tolerance of the least one, or reports that there is none; an evaluation that fails ends the search with that failure.',
  ['inputs','fault_sequences'],
  'all monotone functions, ranges, guesses, tolerances, failing evaluations and budgets',
  'Tests invert two simple functions and compare calibrated noise at a few points; no evaluation fails.',
  [AC+'common/common.cc',AC+'accountant.cc',AC+'privacy_loss_mechanism.cc'],
  [('doubling, then bisection','InverseMonotoneFunction'),('calibration','*PrivacyLoss::FromEpsilonDelta, accountant.cc')],
  [],['InverseMonotoneFunction','GetSmallestParameter','GetEpsilonForAdvancedComposition'])
# ---- SQL extension
PG='cc/postgres/'
p('Q01','SQL aggregates release the statistic of their group\'s entries, once',
  'Every aggregate of the Postgres extension (counts, sums, averages, variances, standard deviations and quantiles, with bounds given or found) returns for each group of a query the result the C++ library gives for the non-null entries of that group with the epsilon and bounds of the query, rounded to the nearest and saturated where the SQL type is an integer, and releases it once, also as a window function. Groups, queries, cursors and sessions that the executor interleaves do not influence each other, a cancelled or failed query leaves no trace in later ones, and parameters that are refused or NULL, calls outside an aggregate and errors of the library make the query fail instead of giving a value.',
  ['schedules','fault_sequences','histories','inputs'],
  'all aggregates, column types, entries, parameters, query plans, interleavings of groups and queries, cancellations and errors',
  'Tests add an entry to each function object; nothing runs the SQL entry points or their state across calls.',
  [PG+'anon_func.cc',PG+'dp_func.cc',PG+'dp_func.h',PG+'anon_func--1.0.0.sql'],
  [('state made at the first row of a group, released at the end','anon_func.cc: accum and extract functions'),('one function object per group','dp_func.cc, dp_func.h: DpFunc'),('binding of SQL names and types to entry points','anon_func--1.0.0.sql')],
  [('algorithm_','entries of one group','dp_func.h')],
  ['SQL results and errors'])
p('N01','A single mechanism\'s privacy loss distribution dominates its true loss',
  'For each supported mechanism and parameters, the pessimistic privacy loss distribution gives an epsilon and delta not below the mechanism\'s true values, and the optimistic one not above.',
  ['inputs'],'all mechanisms, parameters and discretisations','Tests compare at a few parameter values.',
  [A+'pld/privacy_loss_mechanism.py',A+'pld/privacy_loss_distribution.py',A+'pld/pld_pmf.py'],[('connect-the-dots and rounding estimators','pld_pmf.create_pmf_pessimistic_connect_dots, _create_pld_pmf_from_monotone_privacy_loss')])
p('N02','RDP of one mechanism and its conversion to epsilon and delta are upper bounds',
  'For every supported mechanism, order and parameter, the computed RDP is at least the true Renyi divergence, and the conversion to epsilon or delta is a valid upper bound.',
  ['inputs'],'all mechanisms, orders and parameters','Tests compare with constants at a few points.',
  [A+'rdp/rdp_privacy_accountant.py'],[('closed forms and series','_compute_rdp_*'),('conversion','compute_epsilon, compute_delta')])
p('N04','The privacy testers bound their false-alarm rate',
  'Each statistical tester of the auditing library declares a violation for a mechanism that satisfies the tested guarantee with probability at most its configured failure probability.',
  ['inputs'],'all mechanisms satisfying the guarantee','Tests use a few sample sets.',
  [D+'testers/histogram_tester.py',D+'testers/hockey_stick_tester.py',D+'testers/renyi_tester.py'],[('confidence bounds','testers')])
p('N06','PipelineDP4j pipelines bound contributions and select partitions privately',
  'PipelineDP4j pipelines on Beam, Spark and local backends bound each privacy unit\'s contributions before aggregating and only release partitions chosen by private selection, under any runner scheduling and retry.',
  ['inputs','schedules','fault_sequences'],'all pipelines, runners, retries','Tests run small pipelines on a direct runner.',
  ['pipelinedp4j/main/com/google/privacy/differentialprivacy/pipelinedp4j/core/DpEngine.kt'],[('contribution bounding and selection stages','pipelinedp4j core')])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
  for q in P: f.write(json.dumps(q, ensure_ascii=False)+'\n')
print(len(P))
