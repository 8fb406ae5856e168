"""Writes /verif/properties.jsonl from the table below (kept as code so that
statements, anchors and ids are edited in one place)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'observe_at': observe, 'hook_needed': hook}})


TR = 'lambeq/training/'
T2D = 'lambeq/text2diagram/'
MBR = T2D + 'model_based_reader/'

# ---------------------------------------------------------------- training
prop('P01', 'Resuming from a checkpoint reproduces the uninterrupted run',
     'If a seeded training run is killed at any moment and later resumed, any number of times, from its log directory, '
     'then the finished run has the same weights, optimiser state, step, epoch and validation costs and evaluated metrics '
     'as the same run left alone, and leaves the same checkpoints. '
     'This holds for every trainer, model and optimiser, for epoch and step evaluation at any interval, with and without shuffling, for every model whose evaluation is determined by its weights; '
     'a run that finished or stopped early counts as complete and resuming it changes nothing; only recorded durations may differ.',
     ['crash_points', 'histories', 'configurations'],
     'For every kill point (any model evaluation, loss, metric, batch or disk operation), every sequence of kills and resumes, every trainer/model/optimiser/evaluation configuration.',
     'The suite resumes a handful of completed runs at an epoch boundary and mostly checks lengths and the final weights for one configuration each; it never kills a run, never resumes twice and never compares metrics, optimiser state or random choices with an uninterrupted twin.',
     [TR + f for f in ('trainer.py', 'quantum_trainer.py', 'pytorch_trainer.py', 'checkpoint.py', 'spsa_optimizer.py', 'rotosolve_optimizer.py', 'nelder_mead_optimizer.py', 'numpy_model.py', 'pytorch_model.py', 'pytorch_quantum_model.py', 'pennylane_model.py', 'dataset.py')],
     [('training checkpoint at each epoch end', TR + 'trainer.py fit/save_checkpoint/load_training_checkpoint'),
      ('optimiser and RNG state', TR + 'quantum_trainer.py, pytorch_trainer.py _add/_load_extra_checkpoint_info'),
      ('optimiser state_dict/load_state_dict', TR + '*_optimizer.py')],
     ['Trainer.fit, Trainer attributes, model.weights, model.lt'])

prop('P02', 'A crash or disk error while saving never costs the last saved state',
     'If the process is killed, the power fails, or the disk returns errors at any point while a model or training checkpoint is saved over an earlier one, '
     'the path afterwards holds a complete loadable checkpoint: the new one if the save had returned and the process was merely killed, otherwise the previous one or the new one. '
     'A save that cannot be completed raises an error, and a later save and load at the same path work.',
     ['crash_points', 'fault_sequences', 'histories'],
     'For every crash point and every short, failed or full-disk write during every save in a history of saves, loads and restarts, with only durable state surviving.',
     'The tests write checkpoints to a healthy disk and read them back; no test interrupts a save or fails a write.',
     [TR + f for f in ('checkpoint.py', 'model.py', 'trainer.py', 'numpy_model.py', 'pytorch_model.py', 'pennylane_model.py')],
     [('checkpoint serialisation to a path', TR + 'checkpoint.py Checkpoint.to_file/from_file'),
      ('model save/load', TR + 'model.py Model.save/load')],
     ['Checkpoint.from_file, Model.load, files under the log directory'])

prop('P03', 'The best-model file and early stopping follow the whole validation history',
     'At every moment of a training run, including after kills and resumes, the best-model checkpoint holds the weights of the first validation that attained the best criterion value so far in the whole run, '
     'for the validation loss or any named metric, minimised or maximised. '
     'Training stops early exactly when the criterion at the start of the configured interval is better than every later value, as it would have without the restart. '
     'Only a best-model file written by validations that a kill rolled back may stay until those validations are repeated; a run that stopped early and was saved is complete.',
     ['histories', 'crash_points', 'configurations'],
     'For every sequence of validation results (including ties, plateaus and NaN-free negative values), criterion, direction, interval and evaluation mode, with kills and resumes at any point.',
     'The tests check one monotone or constant criterion in one uninterrupted run.',
     [TR + 'trainer.py'],
     [('best-model save', TR + 'trainer.py fit, "save best model"'),
      ('early stopping decision', TR + 'trainer.py _check_early_stopping')],
     ['best_model.lt, number of steps run, val_costs, val_eval_results'])

prop('P04', 'A failed or interrupted training run leaves the model usable and honest',
     'If a model evaluation, loss, metric, data batch or checkpoint write raises an error, or the user interrupts, at any point of training or optimisation, '
     'the weights afterwards are those of the last completed update and never a trial point that was only being probed, the model is not left in training mode, '
     'and the numerical backend is the one that was active before. '
     'The error or interrupt reaches the caller. The same trainer or a new one can then train again.',
     ['fault_sequences', 'crash_points', 'configurations'],
     'For every point at which user code, the model or the disk can raise during fit or an optimiser step, every exception kind including KeyboardInterrupt, every trainer and optimiser.',
     'No test raises from inside a training step; only the success path is executed.',
     [TR + f for f in ('trainer.py', 'quantum_trainer.py', 'pytorch_trainer.py', 'spsa_optimizer.py', 'rotosolve_optimizer.py', 'nelder_mead_optimizer.py', 'quantum_model.py')] + ['lambeq/backend/numerical_backend.py'],
     [('trial evaluation and restore', TR + 'spsa_optimizer.py backward; rotosolve_optimizer.py backward; nelder_mead_optimizer.py objective/backward'),
      ('training mode flag', TR + 'quantum_trainer.py fit'),
      ('backend scope', 'lambeq/backend/numerical_backend.py backend')],
     ['model.weights, model predictions, get_backend()'])

prop('P05', 'Seeded training depends only on its inputs and seed',
     'Two training runs with the same seed, data and configuration produce identical weights, costs, metrics and shuffles, whatever the clock does, whatever ran earlier in the process, wherever the log directory is, '
     'however progress is reported, and whatever the interpreter\'s hash seed is. '
     'Recorded step, validation and epoch durations are never negative and equal the time that really elapsed, even if the wall clock is stepped during the run. '
     'What is reported to TensorBoard is exactly the recorded losses, metrics and durations.',
     ['schedules', 'configurations', 'histories'],
     'For every clock behaviour (steps forward and back, stalls), prior in-process history, hash seed, verbosity and log directory, and every trainer/model/optimiser configuration.',
     'The tests compare two back-to-back runs of one configuration in one process at most, with the real clock and one hash seed.',
     [TR + f for f in ('trainer.py', 'quantum_trainer.py', 'pytorch_trainer.py', 'model.py', 'dataset.py', 'spsa_optimizer.py')],
     [('seeding', TR + 'trainer.py, quantum_trainer.py, pytorch_trainer.py __init__'),
      ('sorted symbols', TR + 'model.py from_diagrams'),
      ('duration measurement', TR + 'trainer.py _step_and_eval, fit')],
     ['Trainer attributes after fit'])

prop('P06', 'Loading a checkpoint is all or nothing',
     'Loading a model from a missing, truncated, foreign, incomplete or unreadable checkpoint file raises an error and leaves the model exactly as it was: same symbols, weights and predictions. '
     'Loading a valid checkpoint reproduces the saved model\'s predictions exactly.',
     ['fault_sequences', 'inputs'],
     'For every truncation point, read error, missing entry and checkpoint of another model class, at every point in the history of a model.',
     'The tests cover one missing file and one missing key, and never look at the model after the failure.',
     [TR + f for f in ('checkpoint.py', 'model.py', 'quantum_model.py', 'numpy_model.py', 'tket_model.py', 'pytorch_model.py', 'pytorch_quantum_model.py', 'pennylane_model.py')],
     [('loading', TR + 'checkpoint.py from_file; *_model.py _load_checkpoint')],
     ['Model.load, Model.from_checkpoint, model attributes'])

# ------------------------------------------------------------ model download
prop('P07', 'An interrupted model installation never yields a mixed or partial model',
     'If installing or updating a pre-trained model is killed or hits disk errors at any point, the next start of a parser uses a model directory that is exactly one published release, correctly labelled with its version, or reports an error; it never silently uses a mixture of releases, a partial copy, or a wrong label. '
     'Once faults stop, one start with a reachable server installs exactly the latest release, with nothing left over from earlier ones.',
     ['crash_points', 'fault_sequences', 'histories'],
     'For every crash point and disk error in every history of installs, updates, restarts (online and offline) and server publishes.',
     'The tests mock every request and check one healthy extraction; no test interrupts one or starts again from what it left.',
     [MBR + 'model_downloader.py', MBR + 'base.py'],
     [('install into model directory', MBR + 'model_downloader.py download_model'),
      ('staleness and fallback', MBR + 'base.py _prepare_model_artifacts')],
     ['files of model_dir after construction of a reader'])

prop('P08', 'Model download survives network faults and rejects corrupt data',
     'Whatever the server or network does while a parser starts (drops, timeouts, error statuses, truncated, corrupted or swapped content, a new release published half-way), data that does not match the published checksum is never installed, '
     'an already installed version is kept intact and used, and a start with nothing installed reports an error; a stalled server never hangs a start. '
     'The version label never claims a newer release than the installed content (it may lag if a release is published while a start is downloading). '
     'When the network is healthy again one start brings the installation to the latest release.',
     ['fault_sequences', 'schedules', 'histories'],
     'For every per-request fault and publish point, in every history of starts with any verbosity and forced or normal update.',
     'The tests mock single responses (bad status, bad checksum) with no installed version to keep, and never a connection broken while streaming.',
     [MBR + 'model_downloader.py', MBR + 'base.py'],
     [('checksum verification', MBR + 'model_downloader.py download_model/_get_remote_checksum'),
      ('fallback to installed version', MBR + 'base.py _prepare_model_artifacts')],
     ['construction of a model-based reader, files of model_dir'])

# ---------------------------------------------------------------- parsing
prop('P09', 'Remote parsing attributes every result to its own sentence under faults',
     'A batch sent to the web parser returns exactly one entry per input sentence, in order, each being the tree the service gave for that very sentence. '
     'With exceptions suppressed any failed, malformed or blank entry is None and no other entry is affected; otherwise the first failure raises a request or parse error.',
     ['fault_sequences', 'inputs'],
     'For every batch (blank sentences anywhere, duplicates, tokenised or not) and every per-request network, HTTP or payload fault.',
     'The tests replace the request by one canned answer for the whole batch or fail all of it.',
     [T2D + 'web_parser.py', T2D + 'ccg_parser.py', T2D + 'ccg_tree.py'],
     [('request loop', T2D + 'web_parser.py sentences2trees')],
     ['WebParser.sentences2trees / sentences2diagrams'])

prop('P10', 'Reading a damaged treebank loses only what is damaged',
     'Reading a CCGBank section yields, for each entry whose ID and tree lines are intact, that ID with exactly its own tree, however other lines or files are torn, truncated, garbled or unreadable: no tree is ever attributed to another ID. '
     'With exceptions suppressed damage only costs the damaged entries; otherwise it is reported as a CCGBank parse error, after all intact entries before it were delivered; a read error of the operating system is always reported.',
     ['fault_sequences', 'inputs'],
     'For every set of torn, truncated, corrupted, duplicated or lost lines and read faults over every generated section, for full and incremental consumption.',
     'The tests read two tiny fixed fixtures with one malformed tree.',
     [T2D + 'ccgbank_parser.py'],
     [('streaming section reader', T2D + 'ccgbank_parser.py section2trees_gen/section2diagrams_gen')],
     ['CCGBankParser.section2trees, section2trees_gen, section2diagrams'])

prop('P11', 'Local parsers keep batch results aligned when sentences fail',
     'For any batch, the Bobcat, Oncilla and depccg parsers return one result per sentence in input order, and each result equals what the sentence gives when parsed alone, whichever other sentences are blank, unparsable, cannot be converted or (Bobcat and Oncilla) make the underlying model fail. The list passed in is not changed. '
     'With exceptions suppressed a failing sentence gives None; otherwise the call raises, and a failure of the model or of parsing is reported as a parse error that names the sentence. '
     'The parser remains usable and unchanged afterwards.',
     ['fault_sequences', 'inputs', 'histories'],
     'For every batch composition and placement of tagger, supertag, chart and tree-conversion failures, over histories of batches on one parser object.',
     'Pre-trained models are not available to the suite without a network, so those tests are skipped or use one canned sentence.',
     [MBR + 'bobcat_parser.py', MBR + 'oncilla_parser.py', MBR + 'base.py', T2D + 'ccg_parser.py', T2D + 'depccg_parser.py', T2D + 'pregroup_tree.py', 'lambeq/bobcat/parser.py', 'lambeq/bobcat/tagger.py'],
     [('batch validation and re-insertion of blanks', MBR + 'base.py validate_sentence_batch'),
      ('per-sentence failure containment', MBR + 'bobcat_parser.py, oncilla_parser.py')],
     ['sentences2trees, sentences2diagrams'])

# ---------------------------------------------------------------- caches, concurrency
prop('P12', 'The contraction-path cache never changes results and survives faults',
     'Evaluating diagrams with a cached contraction-path optimiser gives the same tensors as without one, whatever was cached before, in memory, in a file or in a checkpoint, and however many threads share the optimiser. '
     'A cache file that is missing, empty or torn by a crash is treated as an empty or partial cache, a failed write of it loses no cached path in memory, and after a clean run a new process finds the saved paths.',
     ['crash_points', 'fault_sequences', 'schedules', 'histories'],
     'For every sequence of contractions, crash point and disk error of the cache file, thread interleaving, and restart.',
     'The tests mock the file and contract a few fixed diagrams in one thread.',
     [TR + 'tn_path_optimizer.py', TR + 'numpy_model.py', TR + 'pytorch_model.py'],
     [('path cache', TR + 'tn_path_optimizer.py CachedTnPathOptimizer')],
     ['model outputs, CachedTnPathOptimizer construction and calls'])

prop('P13', 'The selected numerical backend is scoped to its block and its thread',
     'Inside a block that selects a numerical backend, code in that thread sees that backend, and on leaving the block by any route, exception or interrupt included, the previously active one is restored. '
     'What other threads select meanwhile, at any interleaving, is never visible.',
     ['schedules', 'fault_sequences', 'histories'],
     'For every interleaving of threads that enter, nest, leave, override and fail inside backend blocks.',
     'The tests use the backend from a single thread only.',
     ['lambeq/backend/numerical_backend.py', TR + 'dataset.py', TR + 'trainer.py'],
     [('backend stack', 'lambeq/backend/numerical_backend.py backend/get_backend/set_backend')],
     ['get_backend(), Dataset items, Tensor evaluation'])

prop('P14', 'The command line reports success only when the whole output is on disk',
     'A command-line run that ends without an error has written its complete output: reading the file back gives the diagrams or trees of all input sentences in order, and stored arguments reload to the same run. '
     'If reading, parsing or writing fails at any point, the run ends with an error instead of success.',
     ['fault_sequences', 'crash_points', 'configurations'],
     'For every disk error, short write or full disk at any step, for every mode, output format and reader.',
     'The tests mock open() and compare the arguments of writes that always succeed.',
     ['lambeq/cli.py'],
     [('pipeline modules', 'lambeq/cli.py main and *Module')],
     ['exit status and files of lambeq.cli.main'])

prop('P15', 'Concurrent use of separate or shared read-only objects equals sequential use',
     'Threads that parse, read sentences, apply functors and ansaetze, and evaluate circuits at the same time, each with its own inputs, obtain at any interleaving the same results as running one after the other. '
     'No thread\'s evaluation alters the diagrams, weights or symbols another one uses.',
     ['schedules'],
     'For every interleaving of several threads at statement granularity over generated workloads that share models, diagrams and the process-wide tables.',
     'The suite is single-threaded.',
     ['lambeq/bobcat/tagger.py', 'lambeq/bobcat/parser.py', TR + 'quantum_model.py', TR + 'numpy_model.py', TR + 'pytorch_model.py', 'lambeq/backend/grammar.py', 'lambeq/ansatz/circuit.py', 'lambeq/core/utils.py'],
     [('process-wide span table', 'lambeq/bobcat/tagger.py get_chart_spans'),
      ('copy before substitution', TR + 'quantum_model.py _fast_subs')],
     ['results of parse, functor application and model calls'])

prop('P16', 'A functor\'s answers do not depend on what it was asked before',
     'Applying a functor, ansatz or rewriter object to a diagram gives the same result, or the same error, whatever it was applied to earlier, including earlier applications that failed part-way because the user\'s mapping raised or was ill-typed, and whatever callers did to earlier results.',
     ['histories', 'fault_sequences'],
     'For every history of applications with injected failures of the user-supplied mapping at any call, and mutation of earlier results.',
     'The tests apply each functor once or twice to valid inputs.',
     ['lambeq/backend/grammar.py', 'lambeq/ansatz/base.py', 'lambeq/ansatz/circuit.py', 'lambeq/ansatz/tensor.py', 'lambeq/rewrite/base.py'],
     [('functor caches', 'lambeq/backend/grammar.py Functor.ob_with_cache/ar_with_cache')],
     ['Functor.__call__'])

prop('P17', 'Every epoch delivers each example exactly once with its own target',
     'Each full pass over a dataset yields every example exactly once, together with its own target, in batches of the configured size, however many passes are interleaved or abandoned, whichever backend is active, shuffled or not. '
     'Passes never change the dataset itself, and indexing agrees with it.',
     ['schedules', 'histories', 'inputs'],
     'For every interleaving of several partially consumed iterators, abandoned passes, backend switches and failures, over generated datasets.',
     'The tests make single, complete passes over a fixed small dataset.',
     [TR + 'dataset.py'],
     [('batch iterator', TR + 'dataset.py __iter__/shuffle_data')],
     ['Dataset iteration and indexing'])

prop('P18', 'Results from a quantum device are attributed to the circuits that were sent',
     'Evaluating a batch of circuits through a t|ket> device submits every circuit once with the requested number of shots, compilation and seed, and returns for each diagram, in order, the distribution the device measured for that very circuit, however the device schedules, delays or reorders its jobs. '
     'If the device fails at any point the evaluation raises, and a retry gives correct results with no result of the failed attempt in it.',
     ['fault_sequences', 'schedules', 'inputs'],
     'For every batch of generated circuits with post-selection, completion order of jobs, and submission/result/compilation failure.',
     'The tests run a real noiseless simulator that completes jobs in order and never fails.',
     [TR + 'tket_model.py', 'lambeq/backend/quantum.py', 'lambeq/backend/converters/tk.py'],
     [('job submission and result collection', 'lambeq/backend/converters/tk.py get_counts; lambeq/backend/quantum.py eval; ' + TR + 'tket_model.py')],
     ['TketModel.get_diagram_output, Diagram.eval(backend=...)'])

prop('P19', 'The same inputs give the same results in every process',
     'Parsing, reading, building discourse circuits, applying ansaetze and rewriting, converting to t|ket> and PennyLane, collecting symbols and initialising a model, iterating a shuffled dataset, pickling and drawing give the same result (the same diagram, the same order of symbols, the same weights for the same seed, up to rounding) in every process, whatever the interpreter\'s string-hash seed, object addresses, garbage collections, clock, working directory, environment and thread, and whatever that process computed before or in which order. '
     'In particular a model saved in one process can be rebuilt from the same circuits and loaded in another.',
     ['schedules', 'histories', 'inputs'],
     'For every hash seed, heap layout, earlier history, order and thread of the computations, over generated sentences, texts, circuits and models.',
     'The tests run in one process with one hash seed, and compare results with values computed in that process.',
     ['lambeq/text2diagram/', 'lambeq/bobcat/', 'lambeq/experimental/discocirc/', 'lambeq/ansatz/', 'lambeq/rewrite/', 'lambeq/backend/', TR + 'model.py'],
     [('symbols of a model', TR + 'model.py from_diagrams; ' + TR + 'pennylane_model.py'),
      ('ordering of parses', 'lambeq/bobcat/parser.py'),
      ('ordering of wires', 'lambeq/experimental/discocirc/reader.py'),
      ('caches', 'lambeq/backend/grammar.py; lambeq/text2diagram/ccg_rule.py; lambeq/ansatz/')],
     ['every function that computes diagrams, symbols, weights or predictions'])

prop('P20', 'What one process stored means the same to another',
     'Diagrams (with words, boxes, frames, swaps, spiders, daggers, rotations and symbols), types, symbols and the tools that build them, stored by one process by pickling, as JSON or in a checkpoint, are in any other process, whatever its string-hash seed and whatever it computed before, the same values: equal to that process\'s own, with the same hash, usable as dictionary keys and composable with its own, giving the same images, normal forms, weights and predictions. '
     'Loading leaves the stored data unchanged. Cached contraction paths written by one process serve another without changing results, and a training run killed in one process and resumed in another ends as the uninterrupted run does.',
     ['crash_points', 'histories', 'inputs'],
     'For every chain of processes with different hash seeds and earlier histories handing generated values, models and killed training runs over to each other.',
     'The tests store and load within one process with one hash seed.',
     ['lambeq/backend/', 'lambeq/text2diagram/', 'lambeq/ansatz/', 'lambeq/rewrite/', TR + 'model.py', TR + 'trainer.py', TR + 'numpy_model.py', TR + 'pytorch_model.py'],
     [('hashes and equality of stored values', 'lambeq/backend/grammar.py; lambeq/backend/symbol.py; lambeq/backend/tensor.py; lambeq/backend/quantum.py'),
      ('JSON', 'lambeq/backend/grammar.py to_json/from_json'),
      ('checkpoints', TR + 'checkpoint.py; ' + TR + 'trainer.py')],
     ['pickle, to_json/from_json, save/load, load_training_checkpoint'])

prop('P21', 'A call that is stopped leaves lambeq as it was',
     'When parsing, reading, text to circuit conversion, a functor, ansatz or rewriter, evaluation, a model call, conversion, drawing, saving, iteration over a dataset or training is stopped at any moment by an interrupt (Ctrl-C), lack of memory or another exception raised in the middle of its work, the objects it was given are unchanged (except for the weights of a model in training), process-wide settings (numerical backend, gradient mode, open figures, environment, working directory, output streams, warnings) are as before the call, '
     'and nothing of the aborted work is remembered: the same call repeated with the same objects, every later call, a model loaded from what was saved and a training run resumed from its checkpoint give what they give in a process where nothing was stopped.',
     ['crash_points', 'histories', 'inputs'],
     'For every sequence of calls over shared objects and every line of lambeq at which a call is stopped.',
     'The tests stop no call half way.',
     ['lambeq/'],
     [('caches and state of functors, rewriters, readers, ansaetze and models', 'lambeq/backend/grammar.py; lambeq/rewrite/; lambeq/ansatz/; lambeq/experimental/discocirc/; ' + TR + 'model.py'),
      ('process-wide settings', 'lambeq/backend/numerical_backend.py; lambeq/backend/drawing/'),
      ('checkpoints and datasets', TR + 'checkpoint.py; ' + TR + 'trainer.py; ' + TR + 'dataset.py')],
     ['results and settings after the stopped call'])

# ------------------------------------------------- outside the technique
def pure(id, title, statement, files, where, text, why='The tests sample a few fixed inputs.'):
    prop(id, title, statement, ['inputs'], text, why, files, [(title, where)], ['return value'])


pure('P50', 'Diagrams satisfy the laws of a rigid monoidal category',
     'Composition and tensor are associative and unital, the interchange law holds up to normal form, adjoints are inverse and the snake equations normalise away, for all well-typed diagrams.',
     ['lambeq/backend/grammar.py'], 'lambeq/backend/grammar.py Diagram', 'All diagrams.')
pure('P51', 'Functors, ansaetze and rewriters preserve typing and composition',
     'For every diagram, the image under a functor or ansatz is well typed, and images of composites and tensors are composites and tensors of images; rewriting keeps domain and codomain.',
     ['lambeq/backend/grammar.py', 'lambeq/ansatz/', 'lambeq/rewrite/'], 'lambeq/backend/grammar.py Functor', 'All diagrams and mappings.')
pure('P52', 'CCG derivations become diagrams of the right type',
     'Every CCG tree converts to a diagram from the empty type (words) to the image of the root category, and biclosed and planar conversions agree on it.',
     ['lambeq/text2diagram/ccg_tree.py', 'lambeq/text2diagram/ccg_rule.py'], 'lambeq/text2diagram/ccg_tree.py to_diagram', 'All derivations.')
pure('P53', 'The chart parser only outputs derivations licensed by its grammar',
     'Every tree returned by the chart parser is a valid derivation over the sentence with a permitted root category, and its score is the best the chart admits.',
     ['lambeq/bobcat/parser.py', 'lambeq/bobcat/rules.py'], 'lambeq/bobcat/parser.py ChartParser', 'All sentences and tag distributions.')
pure('P54', 'Conversion between lambeq, t|ket>, PennyLane and DisCoPy preserves meaning',
     'Converting a circuit or diagram out and back, or evaluating it on either side, gives the same linear map up to global phase.',
     ['lambeq/backend/converters/', 'lambeq/backend/pennylane.py'], 'lambeq/backend/converters/tk.py', 'All circuits.')
pure('P55', 'Exact evaluation implements the semantics of circuits and tensors',
     'Evaluating a diagram yields the tensor given by contracting its boxes, mixed evaluation is its completely positive version, and all numerical backends agree.',
     ['lambeq/backend/tensor.py', 'lambeq/backend/quantum.py'], 'lambeq/backend/tensor.py, quantum.py eval', 'All diagrams and parameters.')
pure('P56', 'Textual and JSON forms round-trip',
     'CCG trees, types, pregroup trees and diagrams that can be serialised read back equal to the original.',
     ['lambeq/text2diagram/ccg_tree.py', 'lambeq/text2diagram/ccg_type.py', 'lambeq/text2diagram/pregroup_tree.py'], 'from_json/to_json, parse', 'All trees and types.')
pure('P57', 'Losses equal their mathematical definitions on every backend',
     'Each loss returns the defined value for all predictions and labels, finite for degenerate inputs, and identical across numerical backends.',
     ['lambeq/training/loss.py'], 'lambeq/training/loss.py', 'All predictions and labels.')
pure('P58', 'Rewriting and normal forms preserve meaning and terminate',
     'Rewrite rules, cup removal, swap removal and normal forms terminate and yield a diagram denoting the same morphism under the rule\'s interpretation.',
     ['lambeq/rewrite/', 'lambeq/backend/grammar.py'], 'lambeq/rewrite/', 'All diagrams.')
pure('P59', 'Drawings show the diagram that was given',
     'Every drawing backend renders each box and wire of the diagram with its connectivity.',
     ['lambeq/backend/drawing/'], 'lambeq/backend/drawing/', 'All diagrams.')
pure('P60', 'Pregroup trees and discourse circuits represent their text',
     'Trees built from predicted heads and types contain every word once and convert to well-typed diagrams; discourse circuits compose sentence by sentence with the given coreference.',
     ['lambeq/text2diagram/pregroup_tree.py', 'lambeq/text2diagram/pregroup_tree_converter.py', 'lambeq/experimental/discocirc/'], 'lambeq/experimental/discocirc/', 'All texts.')

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
