#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE, TM, OM, FIO = 'bayesloop/core.py', 'bayesloop/transitionModels.py', 'bayesloop/observationModels.py', 'bayesloop/fileIO.py'
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': m.split('@')[0], 'where': m.split('@')[1] if '@' in m
                                         else files[0]} for m in mech]}
    if observe:
        a['observe_at'] = observe
    if state:
        a['state'] = state
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


p('C01', 'Parallel hyper-parameter fits give the same result as serial fits',
  'Fitting a hyper-study or change-point study with any number of worker processes gives the same evidence, local '
  'evidence, averaged parameter distributions, mean values, hyper-parameter and duration distributions as the '
  'single-process fit, up to rounding. This holds for every assignment of work to workers and every order in which '
  'they finish, for more workers than hyper-parameter combinations, and when fits follow each other in one session.',
  ['schedules', 'configurations', 'inputs'],
  'every data set, model, hyper-parameter grid and hyper-prior; every worker count from 1 upwards; every assignment '
  'and completion order of the workers; every sequence of serial and parallel fits in one session',
  'The tests run one parallel fit on one grid; the split of the grid depends on the worker count, and the outcome '
  'could depend on the order in which workers return.',
  [CORE], ['HyperStudy.fit (nJobs > 1)', 'HyperStudy._parallelFit', 'ChangepointStudy.fit'],
  ['logEvidence, localEvidence, posteriorSequence, posteriorMeanValues', 'getHPD/getJHPD/getDD/getPD(s)'])

p('C02', 'A failing worker process never leads to a silently wrong fit',
  'If a worker process of a parallel fit fails (an error or memory failure in its part of the work, a result that '
  'cannot be transferred, workers that cannot be started, an interrupt while waiting), the fit either raises or '
  'returns the correct result. Afterwards the configuration of the study is unchanged, and a repeated fit returns '
  'exactly what a fit without the failure returns.',
  ['fault_sequences', 'schedules', 'configurations'],
  'every failure kind at every point of the work of every worker, in any number of consecutive attempts, for every '
  'worker count, study and model',
  'Worker failures at a chosen point cannot be provoked with unit tests, and a lost share of the grid still gives a '
  'plausible, normalised result.',
  [CORE], ['HyperStudy.fit: creation, use and restart of the process pool, merge of sub-studies'],
  ['exception or results of fit', 'getHyperParameterValue', 'results of the repeated fit'])

p('C03', 'Interrupted, failed or rejected operations leave a study usable',
  'When a fit or an optimisation is aborted at any point of the evaluation of its models (interrupt, memory failure, '
  'exception in a likelihood, prior or transition function), or a configuration call is rejected, the data, the '
  'models and their hyper-parameter values remain as the user set them. A later analysis gives exactly the result '
  'that a fresh study with the same configuration gives.',
  ['fault_sequences', 'configurations', 'inputs'],
  'every abort point during a fit or optimisation, every kind of exception, any number of consecutive failures, '
  'every study type, model and set of fit options',
  'Tests never interrupt a fit; the damage depends on the exact evaluation at which the fit is aborted.',
  [CORE], ['HyperStudy.fit', 'Study.optimize', 'Study.setObservationModel', 'ChangepointStudy.fit'],
  ['getHyperParameterValue', 'results of later fits'])

p('C04', 'Fit results depend only on the current configuration, not on history',
  'The result of a fit is determined by the data, time stamps, models, priors, hyper-parameter values and fit options '
  'that are set at that moment. Whatever the study or its model instances were used for before (other data, other '
  'grids, other fits, optimisation, other studies that share the model instances) has no influence, so the result '
  'equals that of a fresh study with fresh, identical models.',
  ['histories', 'configurations', 'inputs'],
  'every sequence of configuration calls, fits, optimisations and queries on any number of studies which may share '
  'observation and transition model instances',
  'Unit tests use each study and each model instance once; leftovers (caches, bound studies, replaced values) only '
  'show after particular sequences.',
  [CORE, TM, OM], ['Study.fit', 'HyperStudy.fit', 'ChangepointStudy.fit', 'Study.loadData', 'kernel caches of '
   'AlphaStableRandomWalk and BivariateRandomWalk', 'Study.optimize'],
  ['logEvidence, localEvidence, posteriorSequence, posteriorMeanValues', 'getHPD/getPD(s)'])

p('C05', 'Queries and plots are read-only and repeatable',
  'No query, plot, simulation or evaluation of an expression changes a study, whether it succeeds, is rejected or is '
  'aborted by a failure. Repeating it gives the same answer, and everything computed afterwards (further queries, '
  'fits, online steps) is the same as if it had never been asked.',
  ['histories', 'fault_sequences', 'configurations'],
  'every sequence of queries with valid and invalid arguments, in any order and repetition, with failures inside the '
  'query, on every study type, between any fits or steps',
  'Tests call each query once per study; a query that alters the state shows only in what is asked next.',
  [CORE, 'bayesloop/parser.py'], ['get* and plot* methods of all study classes', 'Study.simulate', 'Study.eval'],
  ['return values of queries', 'results of later fits and steps'])

p('C06', 'Inputs are never modified and returned values never change later',
  'Arrays and lists that a user hands to a study or model (data, time stamps, parameter values, priors, '
  'hyper-parameter values and hyper-priors) are never modified. Values that a query has returned keep their content, '
  'whatever is done with the study afterwards, including failed operations.',
  ['histories', 'inputs', 'fault_sequences'],
  'every sequence of configuration calls, fits, steps and queries, including aborted ones, on every study type and '
  'model with every way to specify priors and values',
  'Aliasing is invisible until a later operation overwrites the shared memory.',
  [CORE, TM, OM], ['Study.loadData', 'Study._computePrior', 'HyperStudy._createHyperGrid', 'OnlineStudy.step', 'getters'],
  ['user-held inputs and previously returned values'])

p('C07', 'Online analysis agrees with batch analysis on every prefix of a stream',
  'After every online step with a single transition model, current parameter distributions, mean values and '
  'hyper-parameter distributions equal those of the last time step of a forward-only batch fit of the same models to '
  'the data received so far, and the change of the evidence agrees too. With several transition models of equal '
  'prior probability, their probabilities are proportional to the evidences they obtain in an online study of their '
  'own and the parameter distribution is the corresponding mixture; for any prior probabilities, the evidence is the '
  'prior-weighted mean of these evidences.',
  ['histories', 'inputs', 'configurations'],
  'every data stream, with missing values, of every length; every observation model, transition model with fixed or '
  'multiple hyper-parameter values, prior and hyper-prior',
  'The online study has its own implementation of the update; tests compare it with stored numbers for two streams '
  'of five points.',
  [CORE, TM], ['OnlineStudy.step', 'Study.fit(forwardOnly=True)', 'HyperStudy.fit(forwardOnly=True)'],
  ['getCPD/getCHPD/getCTMD/logEvidence after every step'])

p('C08', 'Every online data point counts exactly once, even if steps fail',
  'An online step that fails for whatever reason (interrupt, memory failure, exception in a likelihood, prior or '
  'transition function, unusable data point) leaves the online study exactly as it was before the step. If the step '
  'is repeated until it succeeds, all results are the same as if the data had arrived without any failure.',
  ['fault_sequences', 'histories', 'inputs'],
  'every stream, every subset of failing steps, every abort point within a step, any number of retries, every set of '
  'models, with and without stored history',
  'Needs a failure in the middle of a step and a comparison with the undisturbed stream.',
  [CORE], ['OnlineStudy.step'], ['all getCurrent* and history queries after failure and after retry'])

p('C09', 'A study restored from a checkpoint continues as if never interrupted',
  'If a process is lost at any point and work is resumed in a new process from the last successfully saved study, '
  'repeating the operations since then gives the same results as an uninterrupted session. This holds for fits, '
  'online steps and queries of every study type and for any number of save, crash and restart cycles.',
  ['crash_points', 'histories', 'configurations'],
  'every session, every checkpoint position, every crash point (between and within operations, including within '
  'save), any number of restarts',
  'The only test saves and loads a freshly fitted study in the same process.',
  [FIO, CORE], ['save', 'load', 'OnlineStudy.step@' + CORE, 'fit of all study types@' + CORE], ['results of all later operations'])

p('C10', 'Saving replaces a stored study completely or not at all',
  'If saving to a file that already holds a study fails or is cut off at any point (full disk, I/O error, study that '
  'cannot be stored, interrupt, killed process, power loss), the file afterwards holds either the complete old or '
  'the complete new study; after a save that reports success, loading returns the new one. Other processes that load '
  'or save the same file at the same time always see one complete study.',
  ['crash_points', 'fault_sequences', 'schedules'],
  'every failing system call and every crash or power-loss point during save, every interleaving with concurrent '
  'loads and saves of the same file',
  'Needs disk faults, crashes and interleavings at the level of system calls.',
  [FIO], ['save', 'load'], ['what load returns afterwards or concurrently'])

p('C11', 'Stored studies load completely, and damaged files are never accepted',
  'A study that was saved and loaded, in the same or another process, answers every query and continues every '
  'analysis exactly like the original, and is independent of it. Loading a file that is truncated at any position, '
  'or whose reading fails, raises an exception and never returns a study.',
  ['configurations', 'fault_sequences', 'crash_points'],
  'every study type, model, prior (including anonymous functions and symbolic distributions) and state of the '
  'analysis; every truncation point; every failing or short read',
  'The test loads one study back and checks nothing but that no exception occurs.',
  [FIO, CORE], ['save', 'load'], ['queries and later analyses of the loaded study'])

p('C12', 'Independent studies and concurrent readers do not disturb each other',
  'Studies that are configured and analysed in different threads give the same results as when they are run one '
  'after the other, even if they share data arrays and observation model instances. Queries that run concurrently '
  'on one study return the same answers as when they are asked one after the other.',
  ['schedules', 'configurations', 'inputs'],
  'every interleaving of two or more threads that each work on their own study, or that query a common study, for '
  'all study types and models (plots excluded)',
  'Tests are single-threaded; a disturbance needs a switch at a particular line.',
  [CORE, TM, OM, 'bayesloop/parser.py'], ['fit and step of all study classes', 'get* methods', 'module and class level state'],
  ['results of every thread'])

p('C13', 'All reported distributions stay proper probability distributions',
  'After every completed fit and after every online step of every session, each parameter distribution, '
  'hyper-parameter distribution, duration distribution and transition model distribution that a study reports is '
  'non-negative and sums to one, mean values lie within the range of the parameter grid, and marginal distributions '
  'agree with the joint one. This includes coarse grids, streams with missing values and outliers, and analyses that '
  'follow failed steps, aborted fits, restores and parallel fits.',
  ['histories', 'fault_sequences', 'inputs'],
  'every session of configuration, fits, steps, failures and retries on every study type, for data to which '
  'at least one of the models assigns a non-zero probability',
  'Tests compare single values of a few distributions; normalisation may be lost only after particular histories.',
  [CORE, TM], ['Study.fit', 'HyperStudy.fit', 'ChangepointStudy.fit', 'OnlineStudy.step', 'getters'],
  ['all get* methods'])

p('C14', 'The stored history of an online study matches what was reported live',
  'For every time step, the parameter distributions, mean values, hyper-parameter distributions and transition model '
  'probabilities that an online study returns for that time are those that it reported as current values at that '
  'time. Storing the history never changes the current results.',
  ['histories', 'inputs', 'configurations', 'fault_sequences'],
  'every stream, every set of transition models, every sequence of steps, failures and queries, at every time step',
  'There are many separate accessors for past values; tests check two of them for one stream.',
  [CORE], ['OnlineStudy.step (storeHistory)', 'OnlineStudy.get* for given times and for all times'],
  ['past against live values'])

p('C15', 'Results do not depend on clock, output, memory contents or random state',
  'Fits and online steps give the same results regardless of verbosity, the behaviour of the system clock and the '
  'content of uninitialised memory, and they neither read nor alter the global random state. A failing output stream '
  'may abort an operation but never alters the result of the repeated operation.',
  ['schedules', 'fault_sequences', 'configurations'],
  'every study type, model and data set; every clock behaviour (jumps, standstill, backwards), verbosity, content of '
  'fresh memory, random state and point of failure of the output stream',
  'The ambient sources of nondeterminism are whatever they happen to be while tests run.',
  [CORE, TM], ['Study.fit', 'HyperStudy.fit', 'ChangepointStudy.fit', 'OnlineStudy.step'],
  ['results under different environments'])

p('C16', 'A hyper-parameter fit is the mixture of the separate fits of all values',
  'The evidence of a hyper-study is the prior-weighted sum of the evidences that separate fits with each combination '
  'of hyper-parameter values give (of the strictly ordered ones in a change-point study), and its parameter and '
  'hyper-parameter distributions are the corresponding mixture. No combination is left out, counted twice or '
  'influenced by the others, whatever the order of the values, the number of workers and their schedule, and '
  'whatever fits were completed or aborted before.',
  ['schedules', 'configurations', 'histories', 'inputs'],
  'every model, hyper-parameter grid (in any order), hyper-prior, data set and set of fit options; every number and '
  'schedule of workers; every sequence of previous fits, aborted ones included',
  'Tests compare one number per study with a stored value; a value computed from left-over state of the previous '
  'combination is as plausible as the right one.',
  [CORE], ['HyperStudy.fit', 'HyperStudy._parallelFit', 'HyperStudy._createHyperGrid', 'ChangepointStudy.fit',
           'Study._setSelectedHyperParameters'],
  ['logEvidence, posteriorSequence, getHPD against separate Study.fit results'])

p('C17', 'No workers, open files or temporary files remain after an operation',
  'After every parallel fit, whether it succeeds, fails or is interrupted, all of its worker processes are stopped '
  'and its process pool is released. After every save or load that succeeds, fails or is interrupted, no file is left '
  'open and no additional file is left next to the stored study (unless removing it is what fails).',
  ['fault_sequences', 'schedules', 'histories'],
  'every study, worker count and file; every failure of workers, pool, disk or file content at every point; any '
  'number of operations in one session',
  'Leaks do not change results; they show after many failures in a long session.',
  [CORE, FIO], ['HyperStudy.fit (process pool)', 'save@' + FIO, 'load@' + FIO],
  ['simulated pools, open file descriptors and directory content after each operation'])

NA = [
 ('C20', 'Fits are exact discrete Bayesian inference',
  'For fixed hyper-parameters, evidence and posterior distributions equal those obtained by summing over all '
  'parameter paths on the grid.', 'every small model and data set',
  'pure function of its input: no schedule, clock, I/O or fault is involved in the value of a single fault-free fit', [CORE]),
 ('C21', 'Observation models evaluate the documented densities',
  'Each built-in observation model evaluates the probability (density) that it documents and treats missing values '
  'as uninformative.', 'every parameter value and data point',
  'pure function of parameters and data', [OM]),
 ('C22', 'Transition models apply the documented transformation',
  'Each transition model maps a distribution to the documented prior of the next time step.',
  'every distribution, time step and hyper-parameter value', 'pure function of distribution and time', [TM]),
 ('C23', 'Expressions are evaluated with the usual arithmetic and independence rules',
  'Probabilities and derived distributions of arithmetic expressions equal those computed by enumerating all '
  'parameter combinations.', 'every expression over (hyper-)parameters', 'pure function of query and posterior',
  ['bayesloop/parser.py']),
 ('C25', 'Optimisation does not lower the evidence',
  'The evidence after optimisation of hyper-parameters is not lower than that of the start values.',
  'every model and start value', 'depends on the numerical optimiser only; no nondeterminism or fault involved', [CORE]),
 ('C26', 'Symbolic Jeffreys priors are correct',
  'Automatically derived Jeffreys priors are proportional to the square root of the determinant of the Fisher '
  'information.', 'every symbolic distribution', 'symbolic pure function', ['bayesloop/jeffreys.py']),
]
for id, title, st, q, reason, files in NA:
    P.append({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': ['inputs'], 'text': q},
              'why_tests_cant': 'The tests compare single values for a few inputs.',
              'anchors': {'files': files, 'mechanism': [{'name': title, 'where': files[0]}]}})

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    import re
    for x in P:
        assert len(x['title']) <= 80, x['title']
        assert len(re.findall(r'[.!?](?:\s|$)', x['statement'])) <= 3, x['id']
    print(len(P), 'properties')
