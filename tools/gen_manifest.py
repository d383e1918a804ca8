#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "exhaustive enumeration of bounded executions of the real code against a reference model"
T = {
 "C01": ("explicit-state exploration: all documents up to a size, every accessor against a tree model", "Every document of up to 5 (quick) / 6 (thorough) nodes over 7 leaf kinds and 3 keys in all insertion orders, every encoding class in every position, wide/deep/far documents; 5 building styles; all accessors."),
 "C02": ("explicit-state exploration: all key sets x all push permutations against an ordered map model", "All arrangements of up to 6-7 of 12 colliding keys, structured orders of up to 65535 keys; sorted/unsorted/nested builders; lookups of present and absent keys."),
 "C03": ("explicit-state exploration: independent decoder/encoder of the published grammar on all bounded documents and layouts", "Output bytes decoded with every byte accounted for; all part orders of legal layouts encoded independently and read back. Number payloads are decoded by decimal-rs (opaque in the grammar)."),
 "C04": ("explicit-state exploration: documents x buffer histories x memory contents, byte equality", "Prior contents, spare capacity, poison patterns of uninitialised memory, owned/borrowed interfaces give the same bytes."),
 "C05": ("explicit-state exploration: all builder operation sequences to a depth against a builder state machine", "All sequences of builder calls up to the bound, results and states compared after every call."),
 "C06": ("explicit-state exploration: all nesting patterns around the depth limit, every route", "Container patterns of period up to 3, depths 1..103, builders, JSON import, queries, formatting and comparison."),
 "C07": ("explicit-state exploration: all JSON token sequences to a length against an independent JSON reader", "All token sequences up to the bound, escapes, structure; three import routes. Known findings: serde_json's reserved key."),
 "C08": ("explicit-state exploration: all bounded documents and all Unicode characters through an independent JSON reader", "Every formatting entry point; every Unicode scalar value as key and value; coefficient/scale grid."),
 "C09": ("explicit-state exploration: number grid and all number texts to a length against exact decimal arithmetic", "Coefficients x scales x signs in all positions; texts over digits, signs, points, exponents; rounding boundaries with exact arithmetic."),
 "C10": ("explicit-state exploration: all ordered pairs of bounded documents and representations", "All pairs of documents up to 4 nodes, representations and layouts of up to 3 nodes, numbers in every representation, documents one edit apart."),
 "C11": ("explicit-state exploration: all strings over the path alphabet to a length against the path grammar", "Every text up to the bound over the alphabet and token sequences; accepted paths must select what the grammar says on probe documents."),
 "C12": ("explicit-state exploration: all bounded documents x paths against a path evaluator", "All documents up to the bound x all step combinations up to the bound; deep and wide documents."),
 "C13": ("explicit-state exploration: all bounded documents x paths, existence against the model's selection", "As C12 for exists()."),
 "C14": ("explicit-state exploration: documents x paths x delivery modes x buffer reuse histories", "Every sequence of two or three queries through reused buffers, all four delivery modes."),
 "C15": ("explicit-state exploration: all bounded documents through binary and human-readable serde formats", "bincode and serde_json (string, reader, value); invalid JSON strings. Known finding: serde_json's reserved key."),
 "C16": ("boundary enumeration of every length, count and subscript limit on the real code against the limit model", "Every limit -1/exact/+1 by every route, including gigabyte documents (release build)."),
 "C17": ("explicit-state exploration: all parts of all bounded documents x all extraction and copy routes", "Every part decoded with every byte accounted for, read, compared, formatted and queried like a fresh build."),
 "C18": ("explicit-state exploration: all documents x all proper prefixes x all reads under guarded memory", "Every proper prefix placed at the end of its allocation before an inaccessible page; every reader must return."),
 "C19": ("exhaustive fault injection: every write position and every byte budget of every bounded document", "Every write and every byte budget fails once; result, prefix, later writes and complete output afterwards are compared."),
 "C20": ("exhaustive fault injection: every allocation of every bounded call sequence, with spare capacities making every call grow", "Every allocation fails once (and once more on repetition) in builders, scalars, copies, path parsing and queries; retries must give identical bytes."),
 "C21": ("explicit-state exploration: all bounded documents, pretty output against the layout rules", "Layout recomputed from the compact output by an independent tokenizer; query results in all delivery modes; depths to 101."),
 "C22": ("explicit-state exploration: all bounded documents x accessors x wrong types, indexes and keys", "Every refused access must give the documented error or None, for all parts of all documents."),
 "C23": ("stateless exploration of all schedules of the real code under a controlled scheduler (bounded preemptions), plus exhaustive two-step histories", "Coroutines in one thread, threads switched at calls, callbacks and allocations, and single-stepped threads interrupted at every instruction; 42 kinds of operation."),
 "C24": ("explicit-state exploration: every error of every kind provoked in bounded spaces, message and place against the model; all texts over the path alphabet to a length against the grammar's first offending token", "Every error value made by hand and by failing calls names its numbers and types under their labels; the position in a path error lies at the token where the independent grammar stops; JSON errors give line and column."),
 "C25": ("explicit-state exploration: all bounded documents x every value replaced by one of every unsupported type x every read", "Encoded by the independent encoder with the foreign type's own payload size, several layouts; every read refuses it by code, everything else is read as before."),
 "C26": ("explicit-state exploration: all bounded documents, texts, paths, fault points and pairs of operations, each state's heap compared with the state before", "Every operation on every bounded document, abandoned at every part, with every failing write and allocation, every refused token sequence; the heap in use after a repetition must be that of before."),
 "C27": ("exhaustive exploration of document, text and path shapes x operations x sizes on the real code, with exact counts of executed instructions (single-stepping) and basic blocks, and a counting allocator", "Every small document, word of tokens, word of characters and path repeated 16 to 65535 times x 25 operations; every place of a container by 15 single reads. Counts are exact and deterministic (no clock)."),
 "C28": ("explicit-state exploration: all sequences of pushes over small key sets with repetitions against a multimap model", "All words of up to 5-10 pushes over 2-6 keys with values told apart, nested repetitions, one repetition at every place and time in objects of up to 18 (32) keys, up to 65535 pushes of one key; every read."),
}
checks = []
for pid, (tech, note) in T.items():
    checks.append({"property": pid, "quick_cmd": f"./check.sh {pid} quick", "thorough_cmd": f"./check.sh {pid} thorough",
        "technique": "model checking: " + tech,
        "level": "fault_enumeration" if pid in ("C19", "C20") else "model_checking",
        "level_note": note + " Complete within the stated bounds (small-scope argument beyond); trusts the reference model in /verif/harness, rustc and decimal-rs's Number type."})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo. Every check builds /verif/harness against /repo's working tree in two profiles (all dynamic checks on; plain release) and explores in worker processes."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
