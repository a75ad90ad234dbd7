"""Source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EV = 'src/skmultiflow/evaluation/'
DA = 'src/skmultiflow/data/'
ME = 'src/skmultiflow/metrics/'

P = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe, note, state=()):
    P.append((dict(id=pid, title=title, statement=statement,
                   quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files,
                                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                mechanism=[dict(name=n, where=w) for n, w in mechanism],
                                observe_at=observe, hook_needed=None)), note))


prop('C01', 'Prequential evaluation tests every sample before training on it',
     'During a prequential evaluation every model is asked to predict each sample of the stream '
     'exactly once, before that model has been trained on it and after it has been trained on all '
     'earlier samples; samples are then used for training exactly once, in stream order, with '
     'their own labels and the classes announced at the first training call. Pre-training samples '
     'are trained on and never tested. When the evaluation is interrupted or a model fails at any '
     'call, the calls made so far still obey these rules and no further call follows.',
     ['histories', 'fault_sequences', 'configurations'],
     'All batch sizes, pre-training sizes, numbers of models and reporting intervals, data '
     'sources, and an interrupt, a failure or a slow call at any model or stream call.',
     'The tests run a handful of fixed configurations to the end and compare summary numbers; '
     'they never look at the order of the calls and never fail or interrupt a call.',
     [EV + 'evaluate_prequential.py', EV + 'base_evaluator.py'],
     [('batch loop: predict, add_result, partial_fit',
       'EvaluatePrequential._train_and_test')],
     ['calls a model under evaluation receives'],
     'Seeded exploration: real evaluator, real streams, recording stub models, simulated clock, '
     'interrupts and failures at drawn calls; the call history is checked rule by rule.')

prop('C02', 'Delayed-label evaluation never uses a label before it is available',
     'During an evaluation with delayed labels a sample is predicted by every model when it '
     'arrives, and its label reaches the models only once the stream time has reached the time '
     'the label becomes available; labels that became available are used for testing and '
     'training exactly once, in the order they became available, with the sample\'s own features, '
     'label and weight, before the models see later arrivals. Labels still pending when the stream or the budget '
     'ends are then used, exactly once; scores always use the predictions made at arrival. This holds for any '
     'arrival pattern, and up to the point of failure when a call fails or is interrupted.',
     ['histories', 'schedules', 'fault_sequences', 'configurations'],
     'All orders of arrival and availability times (random, constant, simultaneous, very late '
     'labels), batch sizes, pre-training sizes, weights, and faults at any call.',
     'The tests replay two fixed files with one constant delay and compare a summary.',
     [EV + 'evaluate_prequential_delayed.py', DA + 'time_manager.py',
      DA + 'temporal_data_stream.py'],
     [('queue of samples awaiting their label', 'TimeManager'),
      ('predict on arrival, update when available',
       'EvaluatePrequentialDelayed._train_and_test')],
     ['calls a model under evaluation receives', 'reported measurements'],
     'Seeded exploration over simulated arrival schedules with the real evaluator, queue and '
     'temporal stream; the call history is checked against the arrival and availability times.')

prop('C03', 'Holdout evaluation separates test from training data and tests on time',
     'During a holdout evaluation no model is ever trained on a sample of a test set, every '
     'other sample drawn is trained on exactly once in stream order, and each test presents the '
     'test samples to all models with no training in between. With a static test set the same '
     'set, taken from the stream before training starts, is used for every test; with dynamic '
     'test sets each test uses a new set drawn right then. Tests take place each time the '
     'configured number of samples has been processed, and up to the point of failure when a '
     'call fails or is interrupted.',
     ['histories', 'fault_sequences', 'configurations'],
     'All batch sizes, test sizes, test intervals, numbers of models, static and dynamic test '
     'sets, and faults at any call.',
     'The tests run one static and one dynamic configuration and compare final numbers.',
     [EV + 'evaluate_holdout.py'],
     [('test set drawn before training, or right before each test',
       'EvaluateHoldout._periodic_holdout')],
     ['calls a model under evaluation receives'],
     'Seeded exploration with the real evaluator; call history checked rule by rule.')

prop('C04', 'Every reported measurement is the metric of the predictions made',
     'Every value an evaluation reports, in its results file, its final summary and its '
     'measurement objects, equals the named metric computed from scratch over the predictions the '
     'models returned and the true labels: "mean" values over all samples tested so far, '
     '"current" values over the most recent samples of the reporting window. Rows are reported at '
     'the configured interval with the id of the sample reached and each model\'s values are '
     'under its own name.',
     ['histories', 'configurations', 'fault_sequences'],
     'All prediction histories, tasks (classification, multi-label, regression, multi-target), '
     'sets of metrics, evaluators, reporting intervals, window sizes and numbers of models.',
     'The tests compare one summary line of a few fixed runs; the values of the rows, windows '
     'that slide and multi-model columns are not recomputed independently.',
     [EV + 'base_evaluator.py', EV + 'evaluation_data_buffer.py', ME + 'measure_collection.py',
      ME + '_classification_performance_evaluator.pyx', ME + '_confusion_matrix.pyx'],
     [('accumulators for the whole run and for the window',
       'base_evaluator.StreamEvaluator._init_metrics'),
      ('report rows', 'StreamEvaluator._update_file')],
     ['results file', 'printed summary', 'get_mean_measurements, get_current_measurements'],
     'Seeded exploration; an independent implementation of all metrics recomputes each value '
     'from the recorded predictions.')

prop('C05', 'The results file is always a valid prefix of the report, complete at the end',
     'At every instant of an evaluation, and after it ends in any way (completion, budget, '
     'interrupt, failing model, failing file operation), the results file consists of a complete '
     'header followed by a prefix of the reported rows in order, no row torn, duplicated, '
     'reordered or altered later. When the evaluation returns without a failed file operation '
     'the file contains all the reported rows.',
     ['histories', 'fault_sequences', 'crash_points', 'configurations'],
     'All evaluators, configurations and points at which the run is stopped, reads of the file '
     'at any model call, failures of opening and writing, and sizes of the write buffer.',
     'The tests compare the file after undisturbed runs only.',
     [EV + 'base_evaluator.py', EV + 'evaluate_prequential.py', EV + 'evaluate_holdout.py',
      EV + 'evaluate_prequential_delayed.py'],
     [('buffered rows flushed per report', 'StreamEvaluator._update_file, _flush_file_buffer')],
     ['results file, read during and after the run'],
     'Seeded exploration with the real evaluator writing through a fault-injecting file layer.')

prop('C06', 'Evaluations keep their sample and time budgets and account time correctly',
     'An evaluation draws no further batch once the configured number of samples has been '
     'processed or the configured time has elapsed on the clock, whatever the durations of the '
     'calls, and otherwise continues until the samples or the stream are used up. Reported '
     'training, testing and total times of each model equal the time that elapsed on the clock '
     'during that model\'s training and testing calls, and generation-speed measurements equal '
     'elapsed time over the configured sizes.',
     ['schedules', 'histories', 'configurations'],
     'All budgets, call durations (including stalls and zero durations), evaluators and models.',
     'Tests read a real clock and cannot assert on it; time limits are not exercised at all.',
     [EV + 'evaluate_prequential.py', EV + 'evaluate_holdout.py',
      EV + 'evaluate_prequential_delayed.py', EV + 'evaluate_stream_gen_speed.py',
      ME + 'measure_collection.py'],
     [('timers around calls', 'RunningTimeMeasurements'),
      ('time and sample checks of the main loop', 'evaluators')],
     ['calls drawn from the stream', 'running_time columns', 'speed file'],
     'Seeded exploration under a simulated clock that only the simulated calls advance.')

prop('C07', 'An interrupted or failed evaluation leaves nothing behind',
     'After an evaluation that was interrupted or failed at any point (user interrupt, model or '
     'stream failure, failing file operation), the same evaluator object can be used for another '
     'evaluation, whose calls, results file and measurements are those of a fresh evaluator on a '
     'fresh stream with fresh models.',
     ['histories', 'fault_sequences', 'crash_points'],
     'All evaluators and configurations, and any one or two failed evaluations before.',
     'No test evaluates twice with one evaluator, or after a failure.',
     [EV + 'base_evaluator.py', EV + 'evaluate_prequential.py', EV + 'evaluate_holdout.py',
      EV + 'evaluate_prequential_delayed.py', DA + 'base_stream.py', DA + 'data_stream.py'],
     [('state re-initialised when an evaluation starts',
       'StreamEvaluator._init_evaluation, _init_file; Stream.restart')],
     ['results file, measurements and model calls of the second evaluation'],
     'Seeded exploration; oracle: the same evaluation by a fresh evaluator in the same run.')

prop('C08', 'Seeded streams replay exactly and do not depend on how they are cut',
     'A stream generator with fixed seeds delivers the same sample sequence in every fresh '
     'instance, after every restart at any point, and for any way of cutting it into requests of '
     'any sizes, interleaved with reads of its attributes and of its last sample; drift requests '
     'made at the same position have the same effect. Reading attributes never changes the '
     'sequence.',
     ['histories', 'schedules', 'configurations'],
     'All generators and drift wrappers, all parameters, all sequences of requests, restarts, '
     'drift requests and reads.',
     'The tests compare the first ten samples of one configuration per generator.',
     [DA],
     [('instance-level random states seeded again on restart', '_prepare_for_use of generators'),
      ('request served sample by sample', 'next_sample of generators')],
     ['arrays returned by next_sample, last_sample'],
     'Seeded exploration of operation schedules; oracle: one fresh instance read in one request.')

prop('C09', 'Finite streams deliver each row once, in order, and count correctly',
     'A stream over finite data (arrays, data frames, files, temporal data, finite generators) '
     'delivers each row exactly once and in order with its own target (and weight and times) for '
     'any sequence of request sizes, and starts over after a restart. At every point the number '
     'of remaining samples, the answer to whether more samples exist, the last delivered sample '
     'and the described features, targets, classes and names agree with the data and with what '
     'was delivered; asking beyond the end never returns wrong rows.',
     ['histories', 'inputs', 'fault_sequences', 'configurations'],
     'All data sets, positions and numbers of target columns, request sizes, restarts, reads '
     'beyond the end, failing file reads.',
     'The tests read two files in fixed steps.',
     [DA + 'data_stream.py', DA + 'file_stream.py', DA + 'temporal_data_stream.py',
      DA + 'base_stream.py', DA + 'multilabel_generator.py', DA + 'regression_generator.py',
      DA + 'anomaly_sine_generator.py'],
     [('cursor sample_idx', 'DataStream.next_sample, n_remaining_samples')],
     ['next_sample, last_sample, n_remaining_samples, has_more_samples, description attributes'],
     'Seeded exploration of request schedules against a list model of the data.')

META_EXTRA = os.path.join(HERE, 'tools', 'meta_extra.py')
NOT_APPLICABLE = []
if os.path.exists(META_EXTRA):
    exec(open(META_EXTRA).read())

TECH = 'deterministic simulation with fault injection (seeded search over schedules and faults)'


def main():
    checks, na = [], []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, note in P:
            pid = d['id']
            built = os.path.exists(os.path.join(HERE, 'sim', 'props', pid.lower() + '.py'))
            f.write(json.dumps(d) + '\n')
            if not built:
                na.append(dict(property=pid, reason='not built yet'))
                continue
            checks.append(dict(
                property=pid, quick_cmd='/opt/venv/bin/python check.py ' + pid,
                thorough_cmd='/opt/venv/bin/python check.py %s --tier thorough' % pid,
                technique=TECH, level='exploration', level_note=note +
                ' Sampling, not proof; assumptions are listed in the evidence file.'))
        for d, reason in NOT_APPLICABLE:
            f.write(json.dumps(d) + '\n')
            na.append(dict(property=d['id'], reason=reason))
    doc = dict(version=1, setup_cmd='/opt/venv/bin/python check.py --smoke',
               hooks=dict(guard='none', enable='no hooks were needed in /repo: every seam (models, '
                          'streams, detectors, clock, files, random numbers, memory estimates) is '
                          'reachable from outside', source_commits=[]),
               checks=checks, not_applicable=na,
               notes='Replay a reported violation with: /opt/venv/bin/python check.py '
                     '--replay <file>. See DESIGN.md.')
    json.dump(doc, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
    for d, _ in P:
        assert len(d['title']) <= 80, d['title']


main()
