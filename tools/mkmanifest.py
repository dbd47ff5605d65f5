#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import config
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": ("seeded schedule search over a shared network, happens-before race detection, comparison with solo results", "2-4 caller threads with nested worker teams; every interleaving decision is the simulator's at memory-access granularity. Assumes sequentially consistent execution of race-free code (races themselves are reported)."),
    "C02": ("seeded schedule search, bitwise comparison of batch and single prediction, canaries around guarded buffers", "row counts 0-24, teams of 1-6, every float placement; single prediction is the reference (C21 decides it against an independent one)."),
    "C03": ("seeded schedule search, comparison of the evaluation with an independent mean of single predictions", "sample counts up to 40, teams of 1-6, metric lists of 1-5; metric routines themselves are trusted (C23)."),
    "C04": ("seeded schedule search, refinement of every minibatch step against the mean of solo gradients in interval arithmetic", "up to 20 samples per epoch, teams of 1-5; a parameter step is accepted within the rounding bound of any summation order."),
    "C05": ("seeded search over epoch histories and hostile random streams, recorded visits checked for the permutation, batch and progress rules", "datasets up to 200 samples, several optimizers, clocks and random streams under control of the simulator."),
    "C06": ("seeded search over training histories and schedules, refinement of every step against an interval model of SGD", "all option combinations, 1-5 epochs of changing size; model steps carry rounding bounds."),
    "C07": ("seeded search over training histories and schedules, refinement of every step against interval models of Adagrad, RMSprop and AdamW", "all option combinations, 1-5 epochs of changing size; model steps carry rounding bounds."),
    "C08": ("seeded search over interleavings of 2-3 sessions (in turns, nested, in sequence, concurrent threads), each checked against models of it alone; race detection", "concurrent sessions at memory-access granularity."),
    "C09": ("simulated file system with process death, torn, short and failing operations, full disk and failing allocations during saves; file compared with old and new image by an independent reader", "file system model: writes reach the file when the call returns, rename is atomic; power loss of written but unsynced data is outside (the library never syncs and does not claim to)."),
    "C10": ("simulated storage splitting every read and write at random, histories of saves, loads and restarts, foreign archives from an independent writer", "archive variants: header padding, member order, stored or deflated; ZIP64 and encryption are outside."),
    "C11": ("fault injection into stored archives and into the storage while they are loaded; result compared with the saved network", "40 kinds of damage at random places plus read faults and failing allocations; an archive recombined from intact, checksummed members of two saved networks of the same shape may load."),
    "C12": ("simulated storage with short, torn and failing operations, full disk, shrinking and damaged files; independent reader and writer as the oracle", "arrays of 0-8 dimensions and 19 types, single, mapped and in archives."),
    "C13": ("allocation-failure injection at every allocation site reached by random histories of operations, with twin runs that meet no fault", "each run fails one or several allocations by position; only allocations of the library (not inside libzip, whose own failures surface as errors)."),
    "C14": ("crash, storage-fault and restart search over checkpoint histories against a best-so-far model", "1-3 instances with their own direction and monitored metric, scores with ties and undefined values, file checked after every epoch and every death."),
    "C15": ("seeded search over interleaved score histories of several instances against a reference automaton", "scores from small sets to force ties, undefined values, changing signs; monitored index default and explicit."),
    "C16": ("crash, storage-fault, restart and clock-jump search over log histories, independent parser and numbering model", "prior logs of every kind (absent, torn, foreign, many lines), up to 60 metrics."),
    "C17": ("resource ledgers (allocations, descriptors, mappings, archive handles, library references, files) over repeated operation cycles with injected failures", "allocations made inside libzip on behalf of a call are the library's only through the handle it must close."),
    "C18": ("dynamic-loader and allocation fault injection over networks with custom activations, prediction and training compared with the function or its fallback", "fake libraries with exact functions; libraries change only between runs."),
    "C19": ("seeded schedule search over training histories with and without validation sets, results compared with an independent evaluation of the recorded parameters", "all optimizers, recording metric and callbacks."),
    "C20": ("hostile and statistical random streams through the rand() seam, concurrent initializations, checks of bounds and moments", "distribution tests use fixed seeds and wide margins, so they are repeatable."),
    "C21": ("allocator and caller placement chosen by the simulator, dirty stack and heap, comparison with an independent double-precision reference within rounding bounds, guarded arena", "three vector widths and AddressSanitizer builds."),
    "C25": ("a whole training program under process deaths, restarts and storage, memory and output faults, every epoch compared with an undisturbed twin and with models of log, checkpoint and early stopping; files judged after every death", "programs of 1-7 epochs over networks of up to 700 parameters, up to 60 incarnations; the program is the harness's, written like the repository's example trainer; bit-exact twins need a team of one, larger teams are compared by their results."),
    "C24": ("terminal and stdout fault injection with resizes, output checked by an independent parser; training compared with its silent twin", "widths 0-2000 and failing queries."),
}
NA = {
    "C22": "pure function of one input vector: no concurrency, time, I/O, randomness or history can change its result, so a simulator has no nondeterminism to control; sampling inputs would be another technique. (Its use within predictions is compared with a double-precision reference as part of C21.)",
    "C23": "pure function of a prediction and a target, as C22. (Gradients through the losses are compared with a double-precision reference as part of C21, means of metrics as part of C03.)",
}
claimed = sys.argv[1:] or sorted(config.C)
checks = [{"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p, "evidence_file": "evidence/%s.json" % p,
           "technique": "deterministic simulation with fault injection: " + T[p][0], "level": "exploration", "level_note": T[p][1]} for p in claimed]
allp = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": p, "reason": NA.get(p, "machinery under construction")} for p in allp if p not in claimed]
m = {"version": 1, "setup_cmd": "./check --setup",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam (OpenMP runtime, allocator, file system, clock, rand, loader, terminal, libzip handles) is taken at link time. All /repo commits are fix: commits, listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
