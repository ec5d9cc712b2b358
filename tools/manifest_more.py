CHECKS['C05'] = (
    T + 'seeded programs of compositions and queries over a pool of distributions '
    'with interrupted and refused operations, compared with direct convolution',
    'exploration', 'seeded search over programs and fault points, not exhaustive')
CHECKS['C07'] = (
    T + 'calibrations against simulated accountants (step, plateau, infinite, noisy, '
    'adversarial curves) with failures injected at chosen callback calls and lines, '
    'checked against the recorded evaluations', 'exploration',
    'seeded search over curves, brackets and fault points, not exhaustive')
CHECKS['C08'] = (
    T + 'searches over simulated monotone functions with known solutions, failures '
    'injected at chosen evaluations and lines, then retried; calibrations of real mechanisms, '
    'interrupted and repeated, against the true divergence', 'exploration',
    'seeded search over functions, bounds and fault points, not exhaustive')
CHECKS['C09'] = (
    T + 'paired executions on two datasets under one simulated random source that makes '
    'all noisy releases coincide; any remaining difference is a leak', 'exploration',
    'seeded search over datasets and noise outcomes, not exhaustive')
CHECKS['C10'] = (
    T + 'paired executions of the whole pipeline with and without one point under one '
    'simulated random source, after histories of other budgets and failed attempts; the '
    'exact privacy loss of the draws made is compared with the budget', 'exploration',
    'seeded search over budgets, shapes, histories and datasets, not exhaustive')
CHECKS['C11'] = (
    T + 'seeded programs of reads and tree operations with failures of the random source '
    'and exceptions at arbitrary lines; every exposed value is traced to a draw',
    'exploration', 'seeded search over programs and fault points, not exhaustive')
CHECKS['C12'] = (
    T + 'trees built under adversarial noise and projection vectors and after failed '
    'attempts, reconciled with the points and the draws made', 'exploration',
    'seeded search over datasets, noise outcomes and fault points, not exhaustive')
CHECKS['C06'] = (
    T + 'real threads under a simulated scheduler that switches at every source line or '
    'byte code of the library, with exceptions in and stalls of single threads, compared '
    'with each program alone in a fresh process', 'exploration',
    'seeded search over schedules and programs, not exhaustive')
CHECKS['C13'] = (
    T + 'audits (some nested in a call of another) over recording components that fail at '
    'chosen calls, exceptions at chosen lines, then further audits; results judged against the '
    'recorded calls', 'exploration', 'seeded search over histories and fault points, not exhaustive')
CHECKS['C14'] = (
    T + 'generators, their retries and their replacements after crashes against a simulated '
    'optimiser service with requests failing before or after taking effect and empty answers',
    'exploration', 'seeded search over histories and fault sequences, not exhaustive')
CHECKS['C15'] = (
    T + 'batches of samples under a simulated random generator (ties, extremes, constants, '
    'failing draws) compared with a reference run sample by sample on the recorded noise',
    'exploration', 'seeded search over inputs and noise outcomes, not exhaustive')
GO = ('the Go library, rebuilt from the working tree, runs under the simulator: ')
CHECKS['G01'] = (
    T + GO + 'seeded splits over shards, serialisation at arbitrary points, lost and '
    'retried workers and merge trees, compared with one unsharded aggregator under the '
    'same noise outcomes', 'exploration', 'seeded search over histories, not exhaustive')
CHECKS['G02'] = (
    T + GO + 'programs of releases, merges, hand-overs and amendments in any order with '
    'noise mechanisms that fail or panic, against a life-cycle model', 'exploration',
    'seeded search over histories and fault points, not exhaustive')
CHECKS['G03'] = (
    T + GO + 'concurrent callers under a seeded scheduler that switches at every statement '
    'of the random bit source, over a simulated system source with short, stalled and '
    'failing reads; every bit handed out is traced to one source bit', 'exploration',
    'seeded search over schedules and fault sequences, not exhaustive')
CHECKS['G04'] = (
    T + GO + 'workers that checkpoint to a simulated disk with torn and lost writes, crash '
    'and recover; truncated, empty and foreign checkpoints offered to every kind of '
    'receiver', 'exploration', 'seeded search over crash and fault points, not exhaustive')
CHECKS['G05'] = (
    T + GO + 'paired releases of neighbouring datasets, with hostile inputs and options, '
    'under one simulated noise outcome; the calls of the noise mechanism are compared with '
    'the budget, and real draws from the simulated random source with the required width',
    'exploration', 'seeded search over inputs, options and noise outcomes, not exhaustive')
CHECKS['G06'] = (
    T + GO + 'mechanisms draw thousands of times from a simulated random source with short '
    'reads; the sample, its grid, intervals and thresholds are compared with the law of the '
    'parameters', 'exploration', 'seeded search over parameters and random outcomes, not '
    'exhaustive')
CHECKS['G07'] = (
    T + GO + 'aggregators merged and restored from parts release under planned noise and are '
    'asked for intervals in any order; hundreds of releases under seeded noise measure how '
    'often intervals cover', 'exploration',
    'seeded search over data, options, histories and noise outcomes, not exhaustive')
PB = ('Privacy on Beam and the Go library, rebuilt from the working tree, run on a simulated '
      'Beam runner (bundles, workers, combiner lifting and merging, serialisation, crashes '
      'and retries decided by the seed): ')
CHECKS['P01'] = (
    T + PB + 'each pipeline runs on two datasets that differ in one privacy unit under equal '
    'noise outcomes; the recorded calls of the noise mechanism are compared', 'exploration',
    'seeded search over pipelines, datasets and schedules, not exhaustive')
CHECKS['P02'] = (
    T + PB + 'released partitions are compared with the named ones, or with a reference '
    'selection for the planned draws and noise', 'exploration',
    'seeded search over pipelines, datasets and schedules, not exhaustive')
CHECKS['P03'] = (
    T + PB + 'aggregations are attached one after another and by concurrent goroutines under '
    'a seeded scheduler, with fitting, excessive and invalid requests, against a reference '
    'ledger', 'exploration', 'seeded search over histories and schedules, not exhaustive')
CHECKS['P04'] = (
    T + PB + 'each pipeline runs under several schedules and on a direct runner with equal '
    'noise; results are compared with each other and with a reference', 'exploration',
    'seeded search over pipelines, datasets and schedules, not exhaustive')
CC = ('the C++ library, rebuilt from the working tree, runs inside one simulated process (noise, '
      'entropy, threads, transport and stored summaries decided by the seed): ')
CHECKS['X01'] = (
    T + CC + 'entries spread over simulated nodes that exchange serialised summaries, with '
    'late and repeated deliveries and crashes, against one aggregation of the same entries',
    'exploration', 'seeded search over histories, data and fault points, not exhaustive')
CHECKS['X02'] = (
    T + CC + 'histories of adds, releases, resets, intervals and merges of damaged summaries, '
    'against fresh aggregations of the entries that should remain', 'exploration',
    'seeded search over histories and damages, not exhaustive')
CHECKS['X03'] = (
    T + CC + 'paired releases of neighbouring data sets, the second answered with the noised '
    'values of the first; inputs, mechanisms, outputs and budget are compared', 'exploration',
    'seeded search over data, parameters and noise outcomes, not exhaustive')
CHECKS['X04'] = (
    T + CC + 'threads switched at every load, store, lock and entropy read of the random '
    'source, across refreshes and failing entropy reads; each word is traced to its delivery',
    'exploration', 'seeded search over schedules and fault points, not exhaustive')
CHECKS['X05'] = (
    T + CC + 'selection probabilities at neighbouring user counts against the budget, and '
    'decisions drawn from simulated entropy against the probabilities', 'exploration',
    'seeded search over parameters and random outcomes, not exhaustive')
CHECKS['X06'] = (
    T + CC + 'mechanisms built in every way draw thousands of times from simulated entropy; '
    'the sample, its grid and the reported distribution are compared with the law of the '
    'parameters', 'exploration', 'seeded search over parameters and random outcomes, not '
    'exhaustive')
CHECKS['X07'] = (
    T + CC + 'aggregations fed in pieces and through merged summaries release under planned '
    'noise; the result is compared with a reference of the statistic', 'exploration',
    'seeded search over entries, splits and parameters, not exhaustive')
JV = ('the Java library, rebuilt from the working tree on stand-ins for the missing jars, runs '
      'inside one simulated process (noise, entropy, transport and stored summaries decided by '
      'the seed): ')
CHECKS['J01'] = (
    T + JV + 'entries spread over simulated workers that hand over serialised summaries with '
    'crashes, late and repeated deliveries, against one aggregator of the same entries',
    'exploration', 'seeded search over histories, data and fault points, not exhaustive')
CHECKS['J02'] = (
    T + JV + 'programs of adds, merges of good, damaged and foreign summaries, hand-overs, '
    'releases and intervals with noise and entropy that fail, against a life-cycle model and '
    'fresh aggregators', 'exploration',
    'seeded search over histories and fault points, not exhaustive')
CHECKS['J03'] = (
    T + JV + 'paired releases of neighbouring data sets under equal noise outcomes, hostile '
    'entries and options; calls of the noise are compared with the budget and the statistic',
    'exploration', 'seeded search over data, options and noise outcomes, not exhaustive')
CHECKS['J04'] = (
    T + JV + 'mechanisms draw thousands of times from a simulated, sometimes failing random '
    'source; sample, grid, quantiles and intervals are compared with the law of the parameters',
    'exploration', 'seeded search over parameters and random outcomes, not exhaustive')
CHECKS['J05'] = (
    T + JV + 'keep probabilities of neighbouring partitions measured on simulated draws, and '
    'approximate bounds under planned and seeded noise, against budget and documented rule',
    'exploration', 'seeded search over parameters, data and random outcomes, not exhaustive')
AC = ('the C++ accounting library, rebuilt from the working tree, runs inside one simulated process '
      '(hash order, allocation failures, stored bytes and failing evaluations decided by the seed): ')
CHECKS['A01'] = (
    T + AC + 'ledgers of several workers with merges, hand-overs, refused and failing spends, crashes '
    'and restarts, against a direct composition of what each ledger holds', 'exploration',
    'seeded search over histories, mechanisms and fault points, not exhaustive')
CHECKS['A02'] = (
    T + AC + 'searches over simulated monotone functions with failing evaluations and calibrations '
    'of mechanisms, against the known solution and the true divergence', 'exploration',
    'seeded search over functions, ranges and fault points, not exhaustive')
CHECKS['Q01'] = (
    T + 'the SQL extension and the C++ library, rebuilt from the working tree, run inside one '
    'process under a simulated database server (executor that interleaves groups, queries and '
    'cursors, memory contexts, errors as long jumps, entropy) that cancels and fails queries; '
    'every result is compared with the library on the same entropy', 'exploration',
    'seeded search over queries, plans, interleavings and fault points, not exhaustive')
