#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so the anchors stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe or [], "hook_needed": hook}})

TR = "reductionml-cli/src/train.rs"
WS = "reductionml-core/src/workspace.rs"
SN = "reductionml-core/src/sparse_namespaced_features.rs"
PO = "reductionml-core/src/object_pool.rs"
JP = "reductionml-core/src/parsers/json_parser.rs"
DP = "reductionml-core/src/parsers/dsjson_parser.rs"
VP = "reductionml-core/src/parsers/vw_text_parser.rs"
DW = "reductionml-core/src/dense_weights.rs"
COIN = "reductionml-core/src/reductions/coin.rs"
CB = "reductionml-core/src/reductions/cb_adf.rs"
EX = "reductionml-core/src/explore.rs"

prop("C01", "Parallel training gives exactly the sequential result",
 "For a given data file and configuration, `reml train` produces the same saved model and the same predictions file, line for line, whatever number of parse threads and queue size it is given and however the threads are scheduled. Every example in the file is learned exactly once, in file order.",
 ["schedules", "configurations", "inputs"],
 "All interleavings of the input thread, any number of parse threads (including none) and the learner; stalled or slow threads, spurious wake-ups, any queue size including 0 and 1; all data formats and reductions.",
 "No test runs `train` at all: tests/cli.rs only checks `--help`. A handful of real runs would see a handful of interleavings on an idle machine, never a stalled worker or a wake-up at the wrong moment.",
 [TR, PO, SN], [("ordered learn queue of shared result slots", TR + ": learn_sender/learn_receiver"),
                ("ready flag + futex wait/wake hand-off", TR + ": ParseResult"),
                ("thread scope joining input and parse threads", TR + ": std::thread::scope")],
 ["output model file", "predictions file"])
prop("C02", "Training always finishes: no deadlock or lost wake-up",
 "On a readable, well-formed data file `reml train` terminates successfully within a bounded amount of work, for every number of parse threads, every queue size and every schedule. No thread waits for ever for an event that has already happened or can no longer happen, even if wake-ups are spurious or any one thread is arbitrarily slow.",
 ["schedules", "configurations", "inputs"],
 "All interleavings, queue sizes from 0 up, thread counts from 0 up, empty and tiny files, more threads than examples, stalls of any one thread, spurious futex wake-ups.",
 "Liveness over all schedules: a test that happens to finish says nothing about the schedule on which it would not, and the existing tests never start the pipeline.",
 [TR], [("bounded flume channels between input, parse and learn stages", TR), ("atomic_wait wait/wake_one on the ready flag", TR + ": ParseResult::await_result/set_result"),
        ("closing channels at end of input", TR + ": drop(parse_sender), drop(learn_sender)")],
 ["process exit"])
prop("C03", "A failure anywhere ends in a failing exit, never a hang or a saved model",
 "If training cannot process its whole input (a malformed or unlabelled example at any position, an unreadable data file or read error part way, a thread that cannot be started, an allocation failure, an unusable metric) `reml train` ends by itself with a non-zero exit status. It never hangs, never reports success, and neither creates nor changes the output model file.",
 ["fault_sequences", "schedules", "inputs", "configurations"],
 "Every kind of failure at every position of the input, in every stage of the pipeline, under every schedule, thread count and queue size, including more examples left than the queues can hold.",
 "Needs a failure combined with a schedule and a backlog larger than the queue; no existing test exercises a failing train run, and a hang shows only for particular thread counts, queue sizes and remaining examples.",
 [TR, JP, DP, VP], [("per-example parse result carries the error to the learner", TR + ": ParseResult::set_result"),
                    ("errors unwrap on the learner thread inside the scope", TR), ("panic propagation by thread::scope", TR)],
 ["exit status", "output model path"])
prop("C04", "Outputs are complete or the command reports failure",
 "When a command exits successfully, everything it was asked to write (predictions file, saved model, exported JSON, progress table and configuration on standard output) has been handed to the operating system completely and in order. Short writes and interrupted calls are absorbed; a full disk, an I/O error or a closed pipe at any write, including the last one, yields a failing exit status instead of a silently truncated output.",
 ["fault_sequences", "inputs", "configurations"],
 "Every position and combination of short write, EINTR, ENOSPC, EIO, EPIPE on each output, including the final flush when the command is already done.",
 "Unit tests write to healthy disks; none injects a write error and none runs a command that writes a file.",
 [TR, "reductionml-cli/src/export_model.rs", "reductionml-cli/src/import_model.rs", "reductionml-cli/src/config.rs"],
 [("BufWriter around the predictions file", TR + ": predictions_file"), ("fs::write of the model", TR + ", import_model.rs"), ("println!/table printing", "export_model.rs, config.rs, train.rs")],
 ["exit status", "bytes in each output file and pipe"])
prop("C05", "Saving a model is atomic under crashes and write failures",
 "If `reml train` or `reml import-model` is killed, loses power or fails at any point while replacing a model file, the path afterwards holds either the complete previous file (or nothing, if there was none) or the complete new model. After a successful exit it holds the complete new model, which loads.",
 ["crash_points", "fault_sequences", "histories"],
 "Crash (process kill or power loss with unsynced data lost or torn) before and after every system call of the run, every write error while saving, with and without a previous model at the path, including training in place from the model that is being replaced.",
 "Tests never crash the process; the window is a few system calls at the end of a run.",
 [TR, "reductionml-cli/src/import_model.rs"], [("writing the serialized model to the output path", TR + ": output_model"), ("the same in import-model", "import_model.rs: output_model")],
 ["contents of the output model path after restart"])
prop("C06", "Checkpoint and restart is invisible to learning",
 "Saving a workspace to the binary model format at any point of its life, discarding it, and loading it again (any number of times) yields a workspace indistinguishable from one that was never interrupted: every later prediction is identical and every later saved model is identical. Saving itself does not change the workspace.",
 ["crash_points", "histories", "configurations"],
 "Restart at every point of every interleaving of predict, learn and predict-then-learn, all reduction stacks and configurations, through the library and through `reml train -i`.",
 "Equality must hold for every state reachable by a learning history; existing tests serialize a fresh or barely trained weights object once.",
 [WS, DW, COIN, CB, "reductionml-core/src/reductions/cb_explore_adf_squarecb.rs"],
 [("serde derive of all reduction state", WS + ": serialize_model/create_from_model"), ("sparse weight encoding", DW + ": SparseF32Vec"), ("counters kept in the model", CB + ": MtrState; cb_explore_adf_squarecb.rs: counter")],
 ["predictions after restart", "bytes of later saves"])
prop("C07", "JSON export and import preserves the model",
 "Exporting a model whose weights and state are finite numbers to the human-readable JSON form and importing it again, at any point of its life, yields a model with identical predictions and identical future learning to the original.",
 ["histories", "configurations", "crash_points"],
 "Any training history, any reduction stack, export/import interposed at any point, through the library and through `reml export-model` / `import-model`.",
 "The JSON form rewrites the weights into a different structure keyed by feature; tests cover one hand-made weights object.",
 [WS, DW, "reductionml-cli/src/export_model.rs", "reductionml-cli/src/import_model.rs"],
 [("weights rewritten to and from a per-feature map", WS + ": rewrite_json_*"), ("DenseWeightsWithNDArray conversion", DW)],
 ["predictions and binary save after the round trip"])
prop("C08", "Reading a data stream does not depend on how the bytes arrive",
 "For each data format the sequence of examples read from a stream depends only on its bytes: not on how they are split across reads, on interrupted reads, on what the reused line buffer held before, or on whether the last line ends in a newline. A read error is reported as an error after the complete examples that precede it, never treated as end of file or as data.",
 ["schedules", "fault_sequences", "inputs"],
 "Every fragmentation of the stream (down to one byte), EINTR at any read, an I/O error at any offset, any buffer history, all formats, blank lines, CRLF, missing final newline.",
 "Tests read from in-memory cursors that deliver everything at once and never fail.",
 [VP, JP, DP, "reductionml-core/src/parsers/text_parser.rs", TR],
 [("chunk reader per format", VP + ": read_multi_lines/read_single_line; json/dsjson get_next_chunk"), ("buffer clear on reuse", "get_next_chunk: output_buffer.clear()"), ("recycled String buffers", TR + ": string_pool")],
 ["chunks returned by get_next_chunk", "training result"])
prop("C09", "Recycled feature objects behave exactly like new ones",
 "Features parsed into recycled objects are indistinguishable from features parsed into fresh ones, whatever the objects held before and however they were passed around: same active features in the same order, same predictions, same learning, same errors. Parsing a valid example never fails because of what an object was used for earlier.",
 ["histories", "schedules", "inputs"],
 "Every history of earlier examples through the same pool (larger and smaller namespaces, other namespaces, other formats, examples abandoned half way by a parse error), every assignment of objects to threads.",
 "Which object is reused for which example depends on the schedule and on everything parsed before; unit tests parse one example with an empty pool.",
 [PO, SN, VP, JP, DP, TR], [("clear keeps allocations and namespace entries", SN + ": SparseFeatures::clear"), ("active flag hides stale namespaces", SN + ": get_namespace, append, all_features"), ("capacity-based reserve", SN + ": SparseFeaturesNamespace::reserve")],
 ["parsed features", "predictions", "saved model"])
prop("C10", "An object pool never hands one object to two users and never loses one",
 "Under any interleaving of concurrent takes and returns, an object that has been handed out is not handed out again before it is returned, every returned object stays available, and the pool's size always equals returns minus successful reuses. A take from an empty pool yields a default object and never blocks.",
 ["schedules", "histories"],
 "Any number of threads, any sequence of take, return, size queries, preemption at every atomic operation and branch.",
 "The only test uses one thread and one object.",
 [PO], [("mutex-protected stack of objects", PO + ": Pool")], ["objects returned by get_object", "len/is_empty"])
prop("C11", "Independent workspaces and parsers do not influence each other",
 "Workspaces and parsers used concurrently in one process, including several workspaces being created from configurations at the same time and parsers sharing one feature pool, each behave exactly as if they ran alone. Creation and use never deadlock.",
 ["schedules", "configurations", "histories"],
 "Any number of threads creating, training, saving and loading workspaces of any configuration and parsing any data through shared pools, all interleavings.",
 "Shared process-wide state (reduction registry, shared pools) only matters under concurrency; all tests are single-workspace.",
 ["reductionml-core/src/reduction_registry.rs", "reductionml-core/src/reduction_factory.rs", PO, WS],
 [("process-wide registry behind a reentrant lock", "reduction_registry.rs: REDUCTION_REGISTRY"), ("nested config creation re-enters the registry", "reduction_factory.rs: parse_config/create_reduction"), ("shared feature pool", PO)],
 ["model bytes and predictions per workspace"])
prop("C12", "Observability options do not change the outcome",
 "Asking for output (progress table at any period, metrics, a predictions file, or --quiet) changes neither the model that `reml train` saves nor whether training succeeds, for any data set including an empty one. The predictions file contains exactly one line per example, in order, and its contents do not depend on the other options.",
 ["configurations", "inputs", "schedules"],
 "All combinations of --quiet, --progress (additive and multiplicative, including extreme values), --metrics, --predictions with every reduction stack, data format, thread count and schedule.",
 "Options select different code paths (learn versus predict-then-learn); no test runs the command.",
 [TR, WS, "reductionml-core/src/metrics/example_number.rs"], [("learn vs predict_then_learn branch", TR + ": process_example"), ("progress period arithmetic", TR + ": inc_iteration"), ("final metric row", TR)],
 ["saved model", "exit status", "predictions file"])
prop("C13", "Reported predictions are progressive: made before learning the example",
 "The prediction reported for an example during training is the one the model would have given just before it learned that example, having learned exactly the examples before it. Predict-then-learn is equivalent to predict followed by learn.",
 ["histories", "configurations", "schedules"],
 "Every example of every history, all reduction stacks; the library, the predictions file, and any mixture of the three operations.",
 "A relation between two executions at every point of a history; tests check a few numbers after one or two updates.",
 [WS, "reductionml-core/src/reduction.rs", "reductionml-core/src/reductions/binary.rs", "reductionml-core/src/reductions/elementwise_interaction.rs", "reductionml-core/src/reductions/debug.rs", TR],
 [("default predict_then_learn", "reduction.rs: ReductionImpl"), ("overrides in binary, elementwise interaction, debug", "reductions/*.rs")],
 ["predictions file", "return value of predict_then_learn"])
prop("C14", "Reported metrics equal the metric of the actual history",
 "Each row of the progress table, and the final row, shows the value of every requested metric (example count, mean squared error, estimated reward, parsed features) over exactly the examples processed up to that row. A row appears at every progress point the period defines, and the final row covers all examples.",
 ["histories", "schedules", "configurations"],
 "Any data, any progress period, any combination of metrics, recycled feature objects, thread counts and schedules.",
 "Metrics accumulate over a whole run and read recycled objects; no test computes a metric over more than a point or looks at the table.",
 ["reductionml-core/src/metrics/mean_squared_error.rs", "reductionml-core/src/metrics/ips.rs", "reductionml-core/src/metrics/parsed_features.rs", "reductionml-core/src/metrics/example_number.rs", TR],
 [("metric accumulators", "metrics/*.rs"), ("table rows at progress points", TR + ": TrainResultManager")],
 ["standard output table"])
prop("C15", "Predicting changes nothing and features survive every operation",
 "Predicting, any number of times and at any point between learning steps, never changes later predictions, learning or saved models. Predict, learn and predict-then-learn leave the caller's features as they found them, so the same features object can be used again, also after being used with other workspaces.",
 ["histories", "configurations"],
 "Any interleaving of clients that share a workspace and keep features objects across calls, with duplicated, delayed and reordered requests; all reduction stacks.",
 "Holds for every interleaving of operations and every feature layout (for example namespaces present in both shared and action features); tests use one call on one layout.",
 [SN, CB, "reductionml-core/src/reductions/elementwise_interaction.rs", "reductionml-core/src/reduction.rs"],
 [("append then remove of shared features", CB + ", " + SN + ": append/remove"), ("temporary namespaces set and removed", "elementwise_interaction.rs"), ("predict takes &self", WS)],
 ["features after each call", "predictions", "saved model"])
prop("C16", "Exploration always emits a valid probability distribution",
 "For every state an online decision service can bring a contextual-bandit model into, every prediction is a distribution over exactly the offered actions: each action once, every probability finite and between 0 and 1, summing to 1. Epsilon-greedy gives every action at least epsilon divided by the number of actions, and a configured uniform floor is respected by the other strategies.",
 ["histories", "fault_sequences", "configurations"],
 "Any history of decisions with lost, duplicated, delayed and reordered rewards, extreme costs, crash and restart from a checkpoint, varying numbers of actions, all exploration strategies and parameters.",
 "The distribution depends on the accumulated model state; tests check a few fixed score vectors.",
 [EX, "reductionml-core/src/reductions/cb_explore_adf_greedy.rs", "reductionml-core/src/reductions/cb_explore_adf_softmax.rs", "reductionml-core/src/reductions/cb_explore_adf_squarecb.rs"],
 [("greedy mass assignment", "cb_explore_adf_greedy.rs"), ("softmax normalisation", "cb_explore_adf_softmax.rs"), ("inverse gap weighting", "cb_explore_adf_squarecb.rs"), ("minimum probability", EX + ": enforce_min_prob")],
 ["ActionProbs predictions"])
prop("C17", "A truncated model file is rejected, never silently accepted",
 "Loading a model file that was cut short at any byte fails with a reported error; it never yields a usable workspace that differs from the saved one, never hangs and never aborts the process. `reml train -i`, `export-model` and the library all report it, and no output model is written from it.",
 ["crash_points", "fault_sequences", "histories"],
 "Truncation (as left by a crash or full disk during a copy) at every length of models of every reduction stack and training history; read errors and short reads while loading.",
 "Needs damage at arbitrary byte positions of realistic models; tests only load intact buffers.",
 [WS, DW, "reductionml-cli/src/train.rs", "reductionml-cli/src/export_model.rs"],
 [("flexbuffers root lookup and serde validation", WS + ": create_from_model")], ["Result of create_from_model", "exit status"])
prop("C18", "Python clients see the same learning as the core library",
 "A Python program that interleaves parsing, predicting, learning, saving and loading on shared workspaces, parsers and features objects, dropping and collecting objects at any time, gets exactly the predictions and models the core library gives for the same operations. Features objects stay valid and unchanged while referenced, and recycling dropped ones never affects a live one.",
 ["histories", "schedules", "configurations"],
 "Any interleaving of client tasks, any object lifetimes and garbage-collection points, all formats and reductions.",
 "Objects are recycled through a process-wide pool when Python drops them; the Python tests run a few straight-line scripts.",
 ["reductionml-python/src/features.rs", "reductionml-python/src/parsers.rs", "reductionml-python/src/workspace.rs", "reductionml-python/src/lib.rs"],
 [("process-wide pool", "lib.rs: SPARSE_FEATURES_POOL"), ("objects returned on drop", "features.rs: Drop"), ("mutable borrow into core features", "features.rs: to_features")],
 ["predictions, serialized models seen from Python"])

# ---- pure functions: real guarantees, but nothing in them for a simulator to decide ----
prop("C20", "Feature hashing is stable and every index is in range",
 "The same feature text, namespace and seed always hash to the same index across versions and platforms, compatible with the documented VowpalWabbit hash, and every index a parser or interaction produces lies inside the weight table for the configured number of bits.",
 ["inputs", "configurations"], "All feature names, namespaces, seeds and bit widths.",
 "Universally quantified over strings and bit widths; tests compare a few fixed hashes.",
 ["reductionml-core/src/hash.rs", "reductionml-core/src/types.rs", "reductionml-core/src/parsers/parsed_feature.rs"], [("murmur hash and mask", "hash.rs, types.rs: FeatureMask")])
prop("C21", "Interactions generate each configured feature combination once",
 "Quadratic and cubic interactions contribute exactly the distinct unordered combinations of features of the configured namespaces, each once, whatever the order and repetition of namespaces.",
 ["inputs", "configurations"], "All namespaces layouts and interaction lists.",
 "Universally quantified over feature layouts; tests cover small fixed layouts.",
 ["reductionml-core/src/weights.rs", "reductionml-core/src/interactions.rs"], [("nested iteration with skip", "weights.rs: generate_foreach_feature_func")])
prop("C22", "Only well-typed reduction stacks can be configured",
 "A configuration is accepted if and only if every reduction's declared label, feature and prediction types match its base; any other configuration is rejected with an error that names the mismatch, and the generated schema and default configurations agree with what is accepted.",
 ["inputs", "configurations"], "All configuration documents.",
 "Universally quantified over nested configurations; tests cover a few.",
 ["reductionml-core/src/reduction.rs", "reductionml-core/src/reduction_factory.rs", "reductionml-core/src/config_schema.rs"], [("check_and_get_reason", "reduction.rs")])
prop("C23", "Parsers accept exactly the documented formats",
 "Every example in the documented vw-text, JSON and dsjson grammars is parsed to the documented features and label, equal content in different formats yields equal features, and everything else is rejected with an error.",
 ["inputs"], "All texts.", "Universally quantified over texts; tests parse a few examples.",
 [VP, JP, DP], [("grammar code", "parsers/*.rs")])
prop("C24", "Loss functions and updates are numerically correct",
 "Loss values, derivatives and the coin-betting update equal their mathematical definitions up to rounding for all finite inputs.",
 ["inputs"], "All finite label, prediction and weight values.", "Universally quantified over reals; tests sample a few values.",
 ["reductionml-core/src/loss_function.rs", COIN], [("closed forms", "loss_function/*.rs")])
if __name__ == "__main__":
    for p in P: assert len(p["title"]) <= 80, p["title"]
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
