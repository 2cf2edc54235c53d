#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, glob, os
NOTES = {
    "iterator-source-reads-ahead": "how many chunks a load asks for is counted",
    "utf8-holds-small-pieces": "what came whole has to be delivered with the next report",
    "atom-waits-after-match": "what a parse asks for is compared with what decides it",
    "advance-waits-for-a-segment": "a reader may not be suspended while what it waits for was signalled",
    "fold-gathers-first": "the order of the calls of user code is compared",
    "take-counts-given-up": "steps of iterations are given up and begun again",
    "notify-waiter-count": "cases are run in an interpreter with weak memory as well",
    "node-cell-unordered": "as above",
    "buffer-advance-two-passes": "as above: C12 has a second thread only there",
    "meter-forgets-at-line-end": "user-defined line endings were added",
    "optional-swallows-sizeless-fatal": "parsers with their own types were added",
    "measure-slice-u32": "items of no size, up to 2^64 - 1 of them",
    "collect-unit-no-rewind": "items of no size are collected too",
    "notify-wakes-128": "crowds of up to thousands of waits",
    "take-count-truncated": "counts beyond 255, up to usize::MAX",
    "the-char-skips-few-empty": "up to 300 empty pieces in one place",
    "atom-identical-shortcut": "patterns that are the input's own memory",
    "validator-valid-u16": "chunks beyond 64 KiB",
    "binexpr-deep-right": "chains of thousands of operators",
    "repeat-splits-run": "one input in a hundred has long repetitions",
    "anchor-same-length": "distances beyond 4 GiB",
 "iterator-source-empty-chunk": "the iterator source was added to the loading engine",
 "buffer-advance-recursion": "C21 is built without optimisation",
 "eitherboth-second-fatal": "composite errors are classified and failed inside combinators",
 "the-char-truncated": "patterns that agree in most bits",
 "slice-peek-window": "inputs of several thousand items",
}
rows = ["| bug | check | needs | first missed |", "|-----|-------|-------|------|"]
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    d = json.load(open(f)); n = f.split("/")[-2]
    rows.append(f"| {n} | {d['property']} | {d['needs']} | {NOTES.get(n, '')} |")
p = "/verif/DESIGN.md"
s = open(p).read()
mark = "## Planted bugs and what catches them\n"
head, tail = s.split(mark)
para = tail.split("\n| ")[0].rstrip()
open(p, "w").write(head + mark + para + "\n\n" + "\n".join(rows) + "\n")
