#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
REF = ("Every case in the stated bounds is built, decoded by an independent reference model of the format and by the real code, "
       "and the whole answers are compared. Trusts the reference model (bound to the code by that comparison and by the 136 real replays) "
       "and assumes that values outside the alphabets behave like those inside.")
T = {
 "C01": ("bounded exhaustive enumeration of inputs on the real code, watched for panics, aborts, stalls",
         "Decided on the real code with overflow checks on, for all inputs within the bounds: every byte and word of seed replays replaced, every cut, every short tail, all short inputs, every field of every attribute. Assumes larger inputs bring nothing new."),
 "C02": ("bounded exhaustive enumeration of property trees against a reference model", REF),
 "C03": ("bounded exhaustive enumeration of section contents against a reference model", REF),
 "C04": ("bounded exhaustive enumeration of texts (all units, pairs, lengths) against a reference model", REF),
 "C05": ("bounded exhaustive enumeration of buffers, lengths and alignments against a bitwise CRC model",
         "The CRC is checked on all inputs up to 2 bytes, a basis of single-bit inputs for every length and position in the bounds, and all alignments. Linearity of the reference is assumed beyond them, not of the code."),
 "C06": ("bounded exhaustive enumeration of corruption patterns and options against a decision-table model", REF),
 "C07": ("exhaustive enumeration of one-bit, two-bit and burst changes on the real code",
         "All one-bit changes, all two-bit changes, all bursts up to the stated width of the seed replays are parsed by the real code. Longer replays are covered by one-bit changes only."),
 "C08": ("exhaustive enumeration of truncation points and appended tails on the real code", "Every cut of every seed replay and real replay's structural region under every option; answers compared with the whole's."),
 "C09": ("exhaustive enumeration of option combinations over enumerated replays against a reference model", REF),
 "C10": ("explicit-state enumeration of actor histories to a depth, model and code compared", REF + " Updates of deleted actors are left unspecified."),
 "C11": ("bounded exhaustive enumeration of attribute payloads against a reference model", REF),
 "C12": ("exhaustive enumeration of alignments, tails and cuts against a reference model", REF),
 "C13": ("bounded exhaustive enumeration of object lists, class tables and caches against a reference model", REF),
 "C14": ("exhaustive enumeration of limits and values of bounded integers against a reference model", REF),
 "C15": ("bounded exhaustive enumeration of declared counts with measured peak allocation of the real code",
         "Peak live heap of each parse is measured by the allocator and bounded by 48 MiB + 256 bytes per input byte (1536 where the network data is made of the shortest records), over all enumerated inputs; a large input must not need over four times as much per byte as a sixteenth of it. One listed finding."),
 "C16": ("bounded exhaustive enumeration of frame counts, markers and times against a reference model", REF),
 "C17": ("bounded exhaustive enumeration of frame values, serialized and deserialized by the real code", "Each enumerated decoded value is compared bit for bit with what its JSON deserializes to; strictness by enumerated edits of the JSON. NaN and infinities are left out, JSON has none."),
 "C18": ("bounded exhaustive enumeration of replays against a reference JSON writer", REF),
 "C19": ("bounded exhaustive enumeration of faulty inputs against the error the reference model predicts", REF),
 "C20": ("exhaustive enumeration of call histories and of thread schedules up to a preemption bound on the real code",
         "Each history or schedule runs in a process forked for it and each answer is compared with that of a process that made no other call. Scheduling points are the allocator calls of the parse; the code is forbid(unsafe_code) and has no shared mutable state, so data races are ruled out by the compiler."),
 "C21": ("bounded exhaustive enumeration of vectors, rotations and quaternions against an exact numeric model", REF),
 "C22": ("bounded exhaustive enumeration of player ids per platform and version against a reference model", REF),
 "C23": ("bounded exhaustive enumeration of loadouts and product lists against a reference model", REF),
 "C24": ("exhaustive enumeration of version triplets around every switch against a reference model", REF),
 "C26": ("bounded exhaustive enumeration of input shapes at sizes of megabytes, with measured processor time of the real code",
         "Processor time of the parsing thread (best of five where the first is over) is bounded by 0.05 s + 0.5 us per input byte (3 us where the network data is made of the shortest records), 8 times what the code needs on the slowest case. Names that share a hash are explored, integer ids that do are not. One listed finding."),
 "C27": ("exhaustive enumeration of byte, word and bit changes; every accepted answer checked against invariants",
         "The invariants are evaluated on every accepted answer of the real code; no model of decoding is involved beyond the published attribute kinds."),
 "C28": ("exhaustive enumeration of property values and ids over grids, each accessor compared with the value held",
         "Numbers on dense grids (thorough: 2^24 bit patterns), not all 2^32 or 2^64."),
 "C29": ("exhaustive enumeration of object names up to edit distance one and length bounds, against a reference model", REF),
 "C30": ("exhaustive enumeration of combinations of irrelevant changes up to a bound; answers compared with the unchanged replay's",
         "Relational: the real code is compared with itself on three replays, all combinations of up to two (thorough: three) changes."),
 "C25": ("exhaustive enumeration of classes, spawns and versions against a reference model", REF),
 "C31": ("bounded exhaustive enumeration of pairs of decoded values and of single changes to whole replays",
         "Equality, clones and hashes of the real types are compared with a canonical form of what the values hold, which uses none of them, over all pairs within the bounds."),
 "C32": ("bounded exhaustive enumeration of values, written to and read from a strict serde format in every way",
         "A serializer and deserializer of the harness keep and give exactly what they are told; the tree is compared with the JSON of the reference and what comes back with the value, bit for bit, over all enumerated values."),
}
m = {
 "version": 1,
 "setup_cmd": "bash run.sh build",
 "checks": [{
   "property": i,
   "quick_cmd": f"bash run.sh check {i} quick",
   "thorough_cmd": f"bash run.sh check {i} thorough",
   "evidence_file": f"evidence/{i}.json",
   "technique": "model checking: " + T[i][0],
   "level": "model_checking",
   "level_note": T[i][1],
 } for i in ids],
 "not_applicable": [],
 "notes": "No hooks: the public API is enough. All checks share one harness crate (harness/), built against /repo by run.sh.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
