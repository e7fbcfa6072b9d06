#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "bounded exhaustive enumeration of messages; every one is run through an explicit-state reference model of the reader and through the real parser, and the answers compared"
X = "model-guided explicit-state exploration (every path of the reference model within a deviation budget), each path replayed on the real parser"
T = {
 "C01": (f"{X}; plus complete fault enumeration (truncations, byte substitutions, insertions, deletions, splices, window overwrites) over a corpus; panics, aborts and hangs observed by a supervising process",
         "Every enumerated input is parsed and, if accepted, deserialised into some 50 types, with overflow checks on; none panics, aborts or runs longer than 20 s. Inputs nested deeper than a few thousand levels and null runs beyond the memory are known findings and not enumerated."),
 "C02": (f"{M}, under a counting allocator that bounds what each parse may hold",
         "For every enumerated message the peak of allocated memory stays below 1 MiB + 512 bytes per input byte + 400 bytes per supplied element. The constants are generous: small constant-factor growth is not reported."),
 "C03": (f"{M} (all values of 8- and 16-bit types and all characters, boundary patterns of wider ones, in every position); {X}",
         "Exhaustive for types of up to 16 bits and for char; bit patterns of wide types are boundary and single-bit patterns. Decimals are compared through their text; non-canonical decimal texts are not compared."),
 "C04": (f"{M}; every string slice of a result has to point into the input", "String lengths up to a ladder of boundary sizes, all prefix encodings, all one- and two-byte strings and boundary sequences of three and four bytes, in every place a string may occur."),
 "C05": (f"{X}; plus complete enumeration of prefixes, trailing bytes and header values", "All proper prefixes of the corpus, all messages with one (and for one message two) trailing bytes, all byte values of every header byte; paths of the model within the budget."),
 "C06": (f"{M}; {X}", "All combinations of member kinds up to four members, ladders of member counts, all four record forms, libraries and ids; duplicate member names are not compared."),
 "C07": (f"{M}: all sequences of class definitions and re-uses up to a depth; {X}", "All sequences up to six records over definitions, re-uses and ids, nesting up to depth four, ladders up to thousands of classes."),
 "C08": (f"{M}: all run compositions up to a length; {X}", "All element and run sequences up to the bound, lengths on a ladder beyond 65536, every element kind."),
 "C09": (f"{M}: all shapes up to a bound; {X}", "All shapes up to rank four with lengths up to the bound, all null-run compositions of small ones, ladders of ranks and lengths. The nesting of arrays without elements is not compared."),
 "C10": (f"{M}: all reference graphs up to three objects (thorough: four) with all record orders, chains and cycles up to thousands; {X}", "Graph enumeration is exhaustive up to the bound. Messages in which an object other than a string is used more than once are the known finding KF-SHARE: rejection is tolerated there, a wrong value is not."),
 "C11": (f"{M}: a root at every position among records of all kinds; {X}", "Up to five top-level records of all kinds, all their orders, ladders up to thousands of records."),
 "C12": (f"{M}: every pair of places that carry an id, all relations of the ids; {X}", "Every kind of id in every place, invalid, missing and duplicate, at distances up to a ladder; messages that are invalid for another reason are other properties' concern."),
 "C13": (f"{M}: libraries in front of every subset of records; all two-byte data that starts like a record; {X}", "Library records in every combination of places for a family of messages; raw data of every primitive type that looks like records, in every position."),
 "C14": (f"{M}: all valid flag words x arrays x contents; {X}", "All argument lists up to the bound, contexts, names, call arrays and their surroundings. Flag words without any category flag and empty rectangular arrays as arguments are not compared."),
 "C15": (f"{M}: all valid flag words x arrays x contents; {X}", "As C14, with return values of every primitive type and from the call array."),
 "C16": ("exhaustive enumeration of all 65536 low flag words and of the high bits, for calls and returns, against the model's flag automaton", "Complete over the low 16 bits; each high bit alone and with samples of valid low words."),
 "C17": (f"{M}: all 256 values of every code byte, with the body of every kind of record behind it; {X}", "Complete over all code bytes in all positions enumerated."),
 "C18": (f"{M}: the product of slot types, records and positions; {X}", "The full matrix, plus pairs of slots x pairs of records."),
 "C19": ("bounded exhaustive enumeration of values x containers x target types; the reference model's value decides what each target has to yield", "All patterns of C03 x 28 scalar targets, bare, in arrays and objects; boxed classes with all member combinations up to the bound. A float target may round; bytes and identifiers are not compared."),
 "C20": ("bounded exhaustive enumeration of arrays and lists x sequence targets against the reference model's value", "All element lists up to the bound x some 60 sequence targets; list sizes, members, orders and names."),
 "C21": ("bounded exhaustive enumeration of objects, nulls and nestings x struct, map and optional targets against the reference model's value", "All member subsets and orders up to three, nesting up to the bound, x some 100 targets."),
 "C22": ("exhaustive enumeration of histories (sequences of operations up to a depth), placements and two-thread schedules with up to two preemptions at allocator calls, on the real code under a controlled scheduler; reference: the same call in a fresh process", "All ordered pairs over about 140 messages x 8 operations each, triples over 32 stateful messages, repetitions up to 1025 (thorough 70000), all single- and double-preemption schedules of pairs of stateful messages at allocator calls."),
 "C23": ("non-deterministic encoder: all encodings of each value of a family (all paths of the encoder's choice tree, up to a limit), each parsed by the real parser and by the model, compared with the value", "For some 40 values all choice trees over pairs of categories of choices are complete; the full tree is cut at a limit, in a fixed order."),
 "C24": ("bounded exhaustive enumeration of 64-bit patterns x accessors and integer targets against the bit layout", "All 65536 upper halves x lower patterns, boundary values; in every position a primitive may stand."),
 "C25": (f"{M}; then both ways of deserialising, from the bytes and from the parsed message, into some 20 types, compared with each other and with the model's value; {X}", "Faults (truncations, substitutions, trailing data), all flag words, sequences of records, names, graphs, slots and explored paths x some 20 target types; error texts are not compared."),
 "C26": ("bounded exhaustive enumeration of families of messages x sizes on a ladder x operations on the real code; the processor time of each run is the observed quantity, and its growth per byte and element is bounded over the whole ladder",
         "Every family with a growing dimension (about 300) x sizes that quadruple up to 131072 elements (thorough 2 million) x ten operations. Reported is growth by more than a factor of eight per byte and element, measured again alone: work that is quadratic, not a constant factor. Nesting is limited to 2000 levels, where quadratic work with a small constant stays below the bound. Times are measured, so the level rests on the processor clock of the thread; it was quiet with three times as many threads as processors."),
}
checks = []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    t, n = T[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']}", thorough_cmd=f"./check.sh {p['id']}", evidence_file=f"evidence/{p['id']}.json",
        technique=t, level="model_checking",
        level_note=n + " Trusted: the reference model (mc/src/model.rs), kept bound to the code by comparing every explored message; rustc and the standard library."))
m = dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=[],
    notes="No hooks: everything is observed through the public API. VERIF_TIER selects the bounds (quick or thorough). ./check.sh replay <file> runs a recorded violation again. Known findings: known_findings.json.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
