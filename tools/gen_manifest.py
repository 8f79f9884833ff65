"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: "
SIMCPU = ("Real reml/library code under a simulator that owns scheduling, clock, randomness and I/O. Sequentially consistent interleavings at basic-block and atomic-operation granularity; "
          "weak-memory reorderings are not simulated. Evidence is the seeds explored, not a proof.")
SEQ = "Real library code; the history and fault points are seeded, not exhaustive. The twin that serves as oracle is the same library on the undisturbed history."
NOTE = {
 "C01": ("seeded thread schedules of the real `reml train`, compared with a sequential reference run of the library", SIMCPU),
 "C02": ("seeded schedules (random, PCT), stalls and spurious wake-ups of the real `reml train`; deadlock detection and bounded-step liveness", SIMCPU + " Liveness is progress within a step bound after the scheduler becomes fair."),
 "C03": ("malformed input, I/O, allocation and thread-creation faults injected into the real `reml train`; termination, status and outputs judged", SIMCPU + " The library parser of the same tree decides which damaged examples are malformed."),
 "C04": ("short, interrupted and failing writes injected at every output of the real commands; success implies complete output", SIMCPU),
 "C05": ("crash at seeded system calls plus power-loss images from the write journal; model path holds old or new model", SIMCPU + " Power loss: unsynced data may be lost or partial, metadata is ordered with respect to it only through fsync."),
 "C06": ("client histories with crash and restart through saved models, library and CLI, against an uninterrupted twin", SEQ),
 "C07": ("client histories with JSON export/import at seeded points, library and CLI, against an untouched twin", SEQ + " Judged while all state is finite."),
 "C08": ("simulated byte streams (fragmentation, EINTR, EIO) under the chunk readers and the real `reml train`, against a model of the stream's records", SIMCPU),
 "C09": ("seeded multi-threaded histories of examples through one object pool, each with a fresh-object twin", SIMCPU),
 "C10": ("threads taking and returning tagged objects under the scheduler, recorded history checked against a multiset model", SIMCPU),
 "C11": ("independent workspace clients on simulated threads, each compared with the same client running alone", SIMCPU),
 "C12": ("same data and seed under different observability options in the real `reml train`; models and outcomes compared", SIMCPU),
 "C13": ("predictions of simulated training runs and library histories against predictions made before each learning step", SIMCPU),
 "C14": ("tables printed by simulated training runs against independently computed metrics", SIMCPU + " Metric definitions are modelled in 64-bit floating point with a tolerance."),
 "C15": ("interleaved clients sharing workspaces and features objects against a twin without the predictions", SEQ),
 "C16": ("simulated online decision service with lost, duplicated, delayed and reordered rewards and restarts; distribution predicate at every decision", SEQ),
 "C17": ("models cut at seeded and at all lengths, loaded by the library and by commands under read faults", SEQ + " Truncation only; arbitrary corruption is outside the statement."),
 "C18": ("Python client tasks under a seeded baton scheduler with collection points, killed tasks and object recycling, against the core library", "Real extension module on the sandbox's CPython 3.12; operations are atomic because the extension holds the interpreter lock."),
 "C19": ("live heap of the real `reml train` accounted at every allocation while the scheduler starves single threads, against the bound of the queues and against shorter runs", SIMCPU + " Memory obtained from the allocator; thread stacks and the page cache are not counted."),
}
NA = {
 "C20": "A pure function of (text, namespace, seed, bits): no scheduling, clock, I/O, randomness or history for a simulator to control; deciding it needs input enumeration or proof.",
 "C21": "A pure function of one features object and the interaction list; nothing a simulator could schedule or fail.",
 "C22": "A pure function of one configuration document; nothing a simulator could schedule or fail.",
 "C23": "A pure function of one text; how bytes reach the parsers is simulated under C08, which texts are accepted is a question of grammar, not of schedules or faults.",
 "C24": "Numerical identities of pure functions; no nondeterminism to simulate.",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in NOTE:
        checks.append({"property": p, "quick_cmd": "python3 check.py --property %s --tier quick" % p, "thorough_cmd": "python3 check.py --property %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": TECH + NOTE[p][0], "level": "exploration", "level_note": NOTE[p][1]})
    else:
        na.append({"property": p, "reason": NA[p]})
m = {"version": 1, "setup_cmd": "python3 vlib/build.py reml coresim pyext", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are compiler instrumentation of the unmodified sources and interposed C library functions (sim/dst.c). Replay a finding with: python3 check.py --replay replays/<file>."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
