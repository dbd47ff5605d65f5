#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, symbols=None):
    a = {"files": files}
    if symbols: a["symbols"] = symbols
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A shared network is safe for concurrent read-only use",
  "While no one modifies a network, any number of threads may use it at the same time for prediction (single and batch), evaluation, gradient computation, parameter read-out and saving. Every call returns what it would have returned had it run alone, writes only its own output buffer, involves no data race, and leaves the network unchanged.",
  ["schedules", "inputs", "configurations"],
  "every interleaving of the calling threads and of the library's own worker threads, every team size, every network shape and mix of read-only calls",
  "The tests call the library from one thread only and whatever interleaving libgomp happens to produce; a shared scratch buffer passes them all.",
  ["src/neuralnet.c", "src/neuralnet_predict_batch.c", "src/evaluate.c", "src/activation.c"],
  ["neuralnet_predict", "neuralnet_predict_batch", "evaluate", "neuralnet_backpropagation", "neuralnet_get_parameters", "neuralnet_save"])

p("C02", "Batch prediction equals row-by-row prediction",
  "For every number of samples, including none or more than 2^31 input values, batch prediction fills row i of the output with exactly the single-sample prediction for input row i, and writes nothing else. This holds for every number of worker threads, every schedule of them and every placement of the caller's buffers.",
  ["schedules", "inputs", "configurations"],
  "every sample count, network shape, worker team size and interleaving, and every float-aligned placement of inputs and outputs",
  "No test calls batch prediction; the single-sample test uses one shape with aligned buffers.",
  ["src/neuralnet_predict_batch.c", "src/neuralnet.c"], ["neuralnet_predict_batch", "neuralnet_predict"])

p("C03", "Evaluation is the mean metric, each sample counted once",
  "Evaluating a network on n samples returns, for each requested metric in the order requested, the mean over the n samples of that metric applied to the prediction and target of the sample. Every sample contributes exactly once, whatever the amount of data, the number of worker threads and their interleaving, and only the result slots are written.",
  ["schedules", "inputs", "configurations"],
  "every sample count, metric list, team size and interleaving of the parallel reduction",
  "No test checks evaluation results; a lost update or a double-counted remainder shows only for particular team sizes and interleavings.",
  ["src/evaluate.c", "src/metrics.c"], ["evaluate"])

p("C04", "A minibatch step uses the mean gradient of exactly its samples",
  "The gradient applied for a minibatch is the arithmetic mean of the per-sample gradients of the samples in that minibatch, all taken at the same parameters. This holds for a short last minibatch too, and whatever the number of worker threads and their interleaving.",
  ["schedules", "inputs", "configurations"],
  "every batch size, dataset size (divisible or not), team size and interleaving of the parallel reduction",
  "The SGD test runs one configuration under uncontrolled threading and compares loosely; races in the reduction or a wrong divisor for the last batch are schedule- and size-dependent.",
  ["src/optimizer.c", "src/neuralnet.c"], ["optimizer_calc_batch_gradient", "optimizer_run_epoch"])

p("C05", "An epoch visits every training sample exactly once",
  "One training epoch takes each training sample into exactly one minibatch; minibatches have the configured size except possibly a smaller last one, and progress is reported after each with the number of samples consumed so far, ending at the dataset size. With shuffling on, the order is a permutation for any random stream; with shuffling off it is the dataset order. It stays true however large the data, when the dataset size changes between epochs and when several optimizers are in use.",
  ["schedules", "inputs", "histories"],
  "every sequence of epochs over datasets of varying size, by one or several optimizers, for every random stream, clock value and thread schedule",
  "Tests run one optimizer over one dataset with shuffling off.",
  ["src/optimizer.c", "src/SGD.c", "src/adagrad.c", "src/RMSprop.c", "src/adam.c"], ["optimizer_run_epoch"])

p("C06", "SGD training follows its update rule at every step",
  "Training with stochastic gradient descent changes the parameters, minibatch by minibatch and epoch after epoch, as the configured rule says: learning rate, inverse-time decay that compounds per minibatch, classical momentum, and Nesterov momentum whose gradient is taken at the look-ahead point. State carries over epochs and nothing but the optimizer's own history influences it.",
  ["schedules", "inputs", "histories", "configurations"],
  "every history of epochs and dataset sizes, hyper-parameters, team size and thread schedule, up to single-precision rounding",
  "Tests compare a few epochs of three configurations; state carried across epochs, remainder batches and thread schedules are not covered.",
  ["src/SGD.c", "src/optimizer.c", "src/neuralnet.c"], ["SGD_new", "optimizer_run_epoch", "neuralnet_update"])

p("C07", "Adaptive optimizers follow their update rules at every step",
  "Training with Adagrad, RMSprop (optionally with momentum or Nesterov momentum) and Adam/AdamW changes the parameters, minibatch by minibatch and epoch after epoch, as the published rule with the configured hyper-parameters (the published defaults for those left out) says, including bias correction counted from the optimizer's own first step and decoupled weight decay. Nothing but the optimizer's own history influences it, whatever the thread schedule.",
  ["schedules", "inputs", "histories", "configurations"],
  "every history of epochs and dataset sizes, hyper-parameters, team size and thread schedule (Adam updates its two moments in parallel), up to single-precision rounding",
  "No registered test covers these optimizers.",
  ["src/adagrad.c", "src/RMSprop.c", "src/adam.c", "src/optimizer.c"], ["adagrad_new", "RMSprop_new", "adam_new"])

p("C08", "Training sessions are isolated from one another",
  "Networks, optimizers and callbacks belonging to different training sessions in one process do not influence each other. Each session behaves as it would alone, whether sessions are interleaved epoch by epoch, nested, follow one another, or run at the same time in different threads.",
  ["schedules", "histories", "configurations"],
  "every interleaving, sequential or concurrent, of two or more sessions with arbitrary optimizers, losses, dataset sizes and callbacks",
  "Every test and example runs one session per process, so state hidden in the library and shared between instances is invisible.",
  ["src/optimizer.c", "src/adam.c", "src/earlystopping.c", "src/modelcheckpoint.c", "src/logger.c"])

p("C09", "Saving a network replaces the file atomically or not at all",
  "At every instant, also after the process dies or an I/O operation or allocation fails at an arbitrary point during a save, the target file is either exactly what it was before (or absent if it was absent) or a complete file that loads as exactly the saved network. A save that did not take effect returns to the caller and says so on the diagnostic streams; one that stays silent took effect.",
  ["crash_points", "fault_sequences", "inputs"],
  "every point of death of the process and every failing open, write, close, rename, seek or allocation during one or several saves over a fresh or existing file",
  "The tests save once to a healthy disk; nothing is killed and nothing fails.",
  ["src/neuralnet.c", "npy_array/npy_array_list.c"], ["neuralnet_save", "npy_array_list_save_compressed"])

p("C10", "A saved network loads back exactly",
  "Loading a file written by a save yields a network with the same layer sizes, activation functions (including custom ones) and bit-identical parameters, however the storage splits reads and writes and whatever formatted file name was used. Files in the documented archive format made by another tool (NumPy: any header padding, stored or deflated members, the activation-name array anywhere in the archive) load as the network they describe.",
  ["inputs", "fault_sequences", "configurations"],
  "every network shape and parameter values (NaN and infinities included), every split of reads into short reads, every documented archive layout",
  "One round trip of one shape is tested, on a real disk that never returns short reads.",
  ["src/neuralnet.c", "npy_array/npy_array_list.c", "npy_array/npy_array.c"], ["neuralnet_load", "neuralnet_save"])

p("C11", "Loading damaged data fails cleanly, never a wrong network",
  "Loading a network from a missing, truncated, bit-damaged, torn or malformed file, or from storage that fails while being read, either returns failure or returns exactly the network that was saved. It never crashes, corrupts memory, or returns a network with layers, names or an array of parameters that were never saved; the process can go on and load a good file.",
  ["fault_sequences", "inputs"],
  "every single or repeated damage to the stored bytes (flips, truncation, overwritten ranges, inconsistent members with valid checksums) and every failing read operation",
  "Tests load only good files and one non-existing name.",
  ["src/neuralnet.c", "npy_array/npy_array_list.c", "npy_array/npy_array.c"], ["neuralnet_load", "npy_array_list_load"])

p("C12", "Array files survive I/O faults: exact round trip or reported failure",
  "An array or list of arrays written to a file and read back (read, memory-mapped, or from an archive, which is compressed as requested) has the same type, shape, order and bytes, however reads are split. When the storage fails, runs full or the file is shorter than its header says, reading returns failure rather than a partial array or list and writing reports the failure on the diagnostic stream; no file content makes reading crash. The printed description of an array states its dimensions.",
  ["fault_sequences", "inputs"],
  "every element type, dimension list and content, every failing or short operation, every truncation or header damage",
  "The array library has no registered test.",
  ["npy_array/npy_array.c", "npy_array/npy_array_list.c"], ["npy_array_load", "npy_array_mmap", "npy_array_save", "npy_array_list_load", "npy_array_list_save_compressed"])

p("C13", "Running out of memory is reported, not suffered",
  "When any memory allocation fails, creating, loading or saving a network, creating an optimizer or callback, loading arrays and training an epoch return with their documented failure result or a diagnostic. Nothing crashes, existing networks, optimizers and files stay intact, and the same call succeeds once memory is available again. A network too big for memory, or of an impossible shape, is refused the same way; calls given no object only warn.",
  ["fault_sequences", "histories"],
  "every position and every run of failing allocations in every sequence of API calls",
  "No test makes an allocation fail.",
  ["src/neuralnet.c", "src/optimizer.h", "src/optimizer.c", "src/callback.h", "src/activation.c", "npy_array/npy_array.c", "npy_array/npy_array_list.c"])

p("C14", "The checkpoint file always holds the best model so far",
  "After every epoch the checkpoint file loads as exactly the parameters the network had at the best-scoring epoch so far, by the monitored metric and direction of that checkpoint instance. If the process dies at any point the file holds the previous or the new best; a failed save is reported, leaves the previous checkpoint in place, and does not stop training.",
  ["crash_points", "fault_sequences", "histories"],
  "every score history (ties, NaN, both directions), every monitored index, every crash point and I/O fault, several instances at a time",
  "No test exercises the checkpoint callback.",
  ["src/modelcheckpoint.c", "src/neuralnet.c"], ["modelcheckpoint_new"])

p("C15", "Early stopping fires exactly when patience is exhausted",
  "Early stopping is signalled exactly from the epoch at which more than `patience` consecutive epochs have passed without improvement of the monitored metric in the configured direction, and never before. Each instance judges by its own history only; ties and undefined scores are not improvements.",
  ["histories", "schedules", "configurations"],
  "every score history, patience, direction and monitored index, with any number of instances interleaved",
  "No test exercises early stopping.",
  ["src/earlystopping.c"], ["earlystopping_new", "earlystopping_do_stop"])

p("C16", "The training log numbers epochs without gap across restarts",
  "Every epoch appends one line to the log with its epoch number, the wall-clock time of day and every metric value under its name, training and validation; nothing already in the log changes. Numbering starts at the configured count, or continues after the last complete epoch line of an existing log when none is configured, also after a crash that tore the last line. Log I/O failures and clock jumps neither crash nor alter training, and any number of metrics is logged completely.",
  ["crash_points", "fault_sequences", "histories"],
  "every sequence of epochs, restarts, torn tails, full or failing disks, clock jumps and metric lists",
  "No test exercises the logger.",
  ["src/logger.c"], ["logger_new"])

p("C17", "No operation leaks memory, file handles or temporary files",
  "Repeating any cycle of creating, loading, saving, training, evaluating and freeing, including cycles in which operations fail through I/O errors, damaged files or exhausted memory, does not grow the process: every allocation, open file, mapping and library handle obtained is released, and no temporary file is left behind unless the process was killed or deleting it failed.",
  ["fault_sequences", "histories"],
  "every cycle of API calls with every failing operation inside it",
  "Tests exit after one pass; nothing counts what is left.",
  ["src/neuralnet.c", "src/activation.c", "src/optimizer.h", "npy_array/npy_array.c", "npy_array/npy_array_list.c"])

p("C18", "Custom activations resolve, or fall back to linear with a warning",
  "A layer whose activation is named symbol@library uses that function, and its derivative for training, in prediction, training, saving and loading. If the library, the symbol or memory is missing the layer becomes linear with a warning and the network works; no failure leaves a network that calls into an unloaded library.",
  ["fault_sequences", "histories", "inputs"],
  "every combination of missing libraries, symbols and derivatives, failing loads and allocations, and histories of creating, saving, loading and freeing networks that use them",
  "Tests use built-in activations and one unresolvable name.",
  ["src/activation.c", "src/neuralnet.c"], ["get_activation_func", "get_activation_derivative", "get_activation_name", "neuralnet_create"])

p("C19", "Reported epoch results belong to the epoch",
  "After an epoch the result vector holds, for each metric of the optimizer in order, the value on the training set and then, if a validation set was given, on the validation set, both evaluated with the parameters the epoch ended with. Nothing beyond these slots is written; the parameters are changed by training only, never by evaluation or callbacks.",
  ["schedules", "histories", "configurations"],
  "every optimizer, metric list (default or explicit), presence or absence of validation data, callback set, team size and schedule",
  "Tests ignore the result vector beyond printing it.",
  ["src/optimizer.c", "src/evaluate.c"], ["optimizer_run_epoch"])

p("C20", "Initial weights are finite and follow the chosen scheme",
  "For every random stream, initialization gives all-zero biases and finite weights of the requested scheme: Xavier weights lie within plus or minus sqrt(6/(inputs+outputs)), Kaiming weights are normally distributed with standard deviation sqrt(2/inputs). When no scheme is named it follows the layer's activation: Xavier for sigmoid, tanh, softmax, hard_sigmoid and softsign, Kaiming for relu and softplus, and unit normal with a warning otherwise.",
  ["inputs", "histories", "configurations"],
  "every random stream (including extreme values of the generator), layer shape, activation and initializer list",
  "Tests never look at the initialized weights.",
  ["src/neuralnet.c"], ["neuralnet_initialize"])

p("C21", "Results do not depend on memory placement or leftover memory",
  "Prediction and gradient computation give the result of the network's mathematical definition, up to single-precision rounding, for every layer shape. They do so wherever the allocator and the caller place networks, inputs and outputs (within the documented alignment) and whatever earlier calls left behind on stack and heap, and touch no memory outside the network, the arguments and their own scratch space.",
  ["inputs", "configurations", "histories"],
  "every allocator placement, stack depth, stale memory content and buffer alignment, every layer shape and activation, on each instruction-set variant",
  "Tests use a handful of shapes with whatever placement the real allocator gives and fresh, mostly zero memory.",
  ["src/neuralnet.c", "src/matrix_operations.c", "src/activation.c", "src/loss.c", "src/simd.h"], ["neuralnet_predict", "neuralnet_backpropagation"])

p("C22", "Activation functions match their mathematical definition",
  "Each built-in activation function returns, for every finite input vector, the value of its mathematical definition within single-precision accuracy, and its derivative routine multiplies by the true derivative.",
  ["inputs"], "every finite input vector and length",
  "The generated tests sample a few hundred vectors.",
  ["src/activation.c"], ["get_activation_func", "get_activation_derivative"])

p("C23", "Loss and metric functions match their mathematical definition",
  "Each loss routine returns the gradient of the named loss with respect to the prediction, and each metric routine the value of the named metric, for every finite prediction and target.",
  ["inputs"], "every finite prediction/target pair and length",
  "The generated tests sample a few hundred vectors.",
  ["src/loss.c", "src/metrics.c"], ["get_loss_func", "get_metric_func"])

p("C24", "The progress display never disturbs training",
  "The progress display writes one line of at most the terminal's width that ends in the percentage done and a newline exactly when all samples are consumed; it writes nothing when standard output is not a terminal. Terminal queries that fail, resizing between calls and failing or full standard output neither crash nor influence training.",
  ["fault_sequences", "histories", "configurations"],
  "every terminal width and change of width, failing terminal query or write, label, and progress sequence",
  "Tests run without a terminal, where the display is silent.",
  ["src/progress.c"], ["progress_ascii"])

p("C25", "A training program can be killed at any moment and resumed from its files",
  "A program that reads its data and network from files, trains with a log, a checkpoint and early stopping, and saves its result can be killed at any moment, or stopped by failing storage or memory, and started again. Each run gets exactly the data and the best parameters that are in its files; each epoch ends with the parameters and results of the same training with nothing else going on, is logged once under the next number, and checkpointed if it is the best of its run. Files are always complete, old or new; every failure is reported; a run that ends has released everything; and once nothing fails any more the program gets to its end.",
  ["crash_points", "fault_sequences", "histories"],
  "every program of this kind, every point of death, every failing operation or allocation, any number of restarts",
  "Tests exercise the parts alone, once, on a real disk that never fails.",
  ["src/neuralnet.c", "src/optimizer.c", "src/optimizer.h", "src/logger.c", "src/modelcheckpoint.c", "src/earlystopping.c", "src/evaluate.c", "npy_array/npy_array_list.c", "npy_array/npy_array.c", "examples/general-trainer.c"], ["neuralnet_load", "optimizer_run_epoch", "callback_run", "neuralnet_save", "npy_array_list_load"])

M = {
 "C01": ([("per-call work memory on the caller's stack","src/neuralnet.c neuralnet_predict, neuralnet_backpropagation"),("const network argument, no library-level caches","src/neuralnet.h")],["return values and output buffers of the calls","network parameters before/after"]),
 "C02": ([("parallel for over samples calling the single-sample predictor","src/neuralnet_predict_batch.c neuralnet_predict_batch")],["output buffer incl. guard zones"]),
 "C03": ([("parallel for with array reduction, division by n","src/evaluate.c evaluate")],["results array"]),
 "C04": ([("parallel for with array reduction over gradients, division by batch size","src/optimizer.c optimizer_calc_batch_gradient")],["parameters between consecutive minibatches"]),
 "C05": ([("pivot permutation, Fisher-Yates shuffle","src/optimizer.c prepare_shuffle_pivot, fisher_yates_shuffle"),("minibatch cursor","src/optimizer.c optimizer_calc_batch_gradient and the run_epoch loops")],["loss function calls","progress calls"]),
 "C06": ([("SGD_run_epoch","src/SGD.c"),("neuralnet_update","src/neuralnet.c")],["parameters at each gradient evaluation and at epoch end"]),
 "C07": ([("adagrad_run_epoch","src/adagrad.c"),("RMSprop_run_epoch","src/RMSprop.c"),("adam_run_epoch, parallel sections","src/adam.c")],["parameters at each gradient evaluation and at epoch end"]),
 "C08": ([("per-instance state","src/optimizer.h, src/callback.h and the implementations")],["parameters, results, files and stop flags of each session"]),
 "C09": ([("archive written to a temporary file and renamed over the target by libzip on close","npy_array/npy_array_list.c npy_array_list_save_compressed")],["target file after crash/failure, through neuralnet_load","stderr/stdout"]),
 "C10": ([("npz writer/reader","npy_array/npy_array_list.c, npy_array/npy_array.c"),("assembly of the network","src/neuralnet.c neuralnet_load")],["parameters and activation names of the loaded network"]),
 "C11": ([("zip checksums, header and shape checks","npy_array/npy_array.c _read_matrix, npy_array/npy_array_list.c npy_array_list_load, src/neuralnet.c neuralnet_load")],["return value; loaded network"]),
 "C12": ([("header writer/parser, fread/fwrite/mmap checks","npy_array/npy_array.c")],["returned array; stderr"]),
 "C13": ([("NULL checks and clean-up paths","src/neuralnet.c, src/optimizer.h, src/callback.h, npy_array/*.c")],["return values, stderr, later calls"]),
 "C14": ([("best score comparison and save","src/modelcheckpoint.c modelcheckpoint_callback_run")],["checkpoint file through neuralnet_load"]),
 "C15": ([("best score and epochs-without-improvement counter","src/earlystopping.c earlystopping_callback_run")],["earlystopping_do_stop"]),
 "C16": ([("append of one formatted line per epoch","src/logger.c logger_callback_run"),("resume from the log's last line","src/logger.c find_last_epoch_from_logfile")],["log file content, stdout"]),
 "C17": ([("clean-up paths and *_free functions","all sources")],["live allocations, descriptors, mappings, library handles, directory listing"]),
 "C18": ([("dynamic symbol records","src/activation.c get_activation_func_dynamic"),("fallback to linear","src/neuralnet.c neuralnet_create")],["predictions, gradients, activation names, stderr"]),
 "C19": ([("evaluation at the end of the epoch","src/optimizer.c optimizer_run_epoch")],["results array incl. guard zone, parameters"]),
 "C20": ([("random_uniform, random_normal, fill_data, scheme selection","src/neuralnet.c neuralnet_initialize")],["weights and biases after initialization, stderr"]),
 "C21": ([("alignment-aware kernels with scalar remainders, aligned work memory","src/matrix_operations.c, src/activation.c, src/neuralnet.c")],["outputs and gradients incl. guard zones"]),
 "C22": ([("activation kernels","src/activation.c")],["return values"]),
 "C23": ([("loss and metric kernels","src/loss.c, src/metrics.c")],["return values"]),
 "C25": ([("array files and archives","npy_array/npy_array.c, npy_array/npy_array_list.c"),("load, epoch, callbacks, save","src/neuralnet.c, src/optimizer.c, src/logger.c, src/modelcheckpoint.c, src/earlystopping.c")],["parameters and results after each epoch","the files after each call and each death","stderr","what a run leaves behind"]),
 "C24": ([("progress_ascii","src/progress.c")],["standard output"]),
}
for q in P:
    mm, obs = M[q["id"]]
    q["anchors"]["mechanism"] = [{"name": n, "where": w} for n, w in mm]
    q["anchors"]["observe_at"] = obs
    q["anchors"]["hook_needed"] = None
    syms = q["anchors"].pop("symbols", [])
    q["anchors"]["state"] = [{"name": s, "meaning": "public entry point", "where": q["anchors"]["files"][0]} for s in syms]

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
