#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the properties with a check."""
import json, subprocess
NOTES = {
 "C01": "differential against a PEG interpreter over generated grammars and inputs",
 "C02": "differential on grammars biased to partially consuming recoverable/fatal leaves; error classification law",
 "C03": "differential between execution modes and repeated runs of one parser object",
 "C04": "differential between contiguous and segmented/suspended delivery; usage monitor",
 "C05": "reference prefix match over generated text, items and deliveries",
 "C06": "differential against textbook precedence climbing over generated operator tables and token strings",
 "C07": "long generated chains on a small stack against an iterative reference",
 "C08": "model-based: lazy list operations over generated adapter chains",
 "C09": "stateful model-based histories on slices and text",
 "C10": "stateful model-based histories and grammar runs on measured sequences",
 "C11": "reference line splitter over generated text and chunkings",
 "C12": "stateful model-based load/commit/read/advance histories, drop accounting, guarded heap",
 "C13": "stateful model of visible and pending items against every load report",
 "C14": "fault injection at every point of generated load histories, list model",
 "C15": "std::str::from_utf8 as oracle over generated byte streams, chunkings and faults",
 "C16": "bounded Vec model over generated writer scripts, guarded heap, drop accounting",
 "C17": "stateful model-based histories with counting wakers; randomised threads",
 "C18": "generated producer schedules injected into the reader's polls; list model",
 "C19": "model-based differential against Vec, drop accounting, guarded heap",
 "C20": "differential against Iterator::filter",
 "C21": "generated segment chains and drop orders on an ordinary stack; drop accounting",
 "C23": "generated operations dropped at generated suspensions; heap and drop accounting, guarded heap, model of what goes on",
 "C24": "generated histories of loads, skips and parses; items alive and heap held after every step against what is still needed",
 "C25": "differential against slicing and numbers over generated segments, positions and distances",
 "C26": "round trips of generated values through every carrier; call, poll, wake and drop accounting",
 "C22": "differential between streamed and in-memory parsing over generated data, pacing and programs",
}
CLAIMED = open("/verif/claimed.txt").read().split()
INTERPRETED = "C12 C15 C16 C17 C18 C19 C22 C23".split()
NA = {}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
commits = [l.split()[0] for l in subprocess.check_output(
    ["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], text=True).splitlines() if "verification hook" in l]
m = {
 "version": 1,
 "setup_cmd": "./setup",
 "hooks": {"guard": "cfg(parcom_verif)", "enable": "RUSTFLAGS=--cfg parcom_verif (set by ./check and ./setup)", "source_commits": commits},
 "checks": [{
   "property": p["id"],
   "quick_cmd": f"./check {p['id']}",
   "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
   "evidence_file": f"evidence/{p['id']}.json",
   "technique": "property-based testing: " + NOTES[p["id"]] + ("; generated cases interpreted by Miri (random schedules, weak memory, memory faults)" if p["id"] in INTERPRETED else ""),
   "level": "exploration",
   "level_note": "generated cases against an explicit oracle on the compiled code; counts, distinct non-trivial cases, classes and samples are in the evidence file",
 } for p in props if p["id"] in CLAIMED],
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()] + [
   {"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in CLAIMED and p["id"] not in NA],
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
