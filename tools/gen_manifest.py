#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection"
tree = "Seeded search over simulated histories, schedules and faults against the real input_tree code; nothing outside the explored runs is decided. Trusts the reference model in sim/treekit. "
page = "Seeded search over simulated pages: the real front end bundled from /repo/src and the real core behind its bindings, over a simulated document object model with a plain layout; nothing outside the explored runs is decided, and browser behaviour beyond the simulated part is out of reach. "
checks = {
 "C01": (T + ": undo/redo walks over edit histories with crashes inside batches", tree + "Oracle: the recorded earlier document, exactly."),
 "C02": (T + ": author and replicas behind a lossy, duplicating, reordering, partitioned network with crashes", tree + "Oracle: executable model of edits, compared at every delivery, and convergence once faults stop."),
 "C03": (T + ": trackers that follow an edit log at their own pace, saved and reloaded", tree + "Oracle: markers in the gaps of a document skeleton. Two unimplemented cases (table edits around a position, table selections) are listed as known findings."),
 "C04": (T + ": cohorts of positions carried by independent schedules", tree + "Oracle: enumeration of all places of the model document in document order. Only row edits (see C03's findings)."),
 "C05": (T + ": stale, duplicated and damaged edits sent to the author and to replicas", tree + "Oracle: the model decides whether an edit fits; a refused edit must leave the real document as it was. Refusing by panicking counts as refusing."),
 "C06": (T + ": simulated disk with torn, lost, short, interrupted and failing I/O and bit rot", tree + "Oracle: exact equality after intact saves, independent encoder of the saved form, truncation never accepted, accepted values are exercised."),
 "C07": (T + ": text sinks and files that fail at every point", tree + "Oracle: independent parser of the printed text, prefix relation, reported failure."),
 "C21": (T + ": several walkers moving through one document by focuses while it is edited, saved and reloaded", tree + "Oracle: paths kept by the model and direct lookup in the model document; content, index, refusal, way back, equality and saved form after every move."),
 "C18": (T + ": pages with event sources that run side by side, deferred tasks, clipboard faults and host changes; what is shown is read back after every event", page + "Oracle: the shown MathML is read back to a document and compared with the editor's; carets, selections and clicked places are computed from where the symbols are."),
 "C19": (T + ": host pages that set formulas at any point of an editing session, also broken ones", page + "Oracle: formulas are drawn together with the document they stand for and written in many equivalent ways. What stands for an element that is not supported is not judged, only what is around it."),
 "C23": (T + ": seeded programs that compose parsers and interleave calls on several editors, with senseless arguments, damaged clipboard text and parsers given up early", page + "Oracle: the same calls on editors and parsers made of the core alone. Arguments of a type that the generated bindings refuse themselves are not passed; moves by words and lines are not implemented in the core."),
 "C24": (T + ": pages on which typing, corrections, clipboard, undo, host changes and timers interleave; how the formula is marked up is read back after every event", page + "Oracle: an independent reader of the shown MathML walks along with the core's syntax tree; that the tree itself is right is decided by C16 and C17."),
 "C22": (T + ": seeded scheduling of keyboard, clipboard, pointer, host and timer events over several editors, with clipboard loss, truncation and foreign content, meaningless input, second fingers, broken markup", page + "Oracle: a second core editor that gets the same events directly and in order, compared whenever nothing is deferred; pages must never fail."),
}
NA = "a pure function of one input with no schedule, time, I/O or party for a simulator to control: deterministic simulation adds nothing to plain input generation here"
na = {
 "C20": "rectangle arithmetic is " + NA,
}
unbuilt = {}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
ed = os.path.join(here, "tools", "editor_checks.json")
if os.path.exists(ed):
    for k, v in json.load(open(ed)).items():
        checks[k] = tuple(v)
for p in props:
    if p["id"] not in checks and p["id"] not in na:
        na[p["id"]] = "no check built yet"
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [
  {
   "property": k,
   "quick_cmd": f"./check.sh {k} quick",
   "thorough_cmd": f"./check.sh {k} thorough",
   "evidence_file": f"evidence/{k}.json",
   "technique": v[0],
   "level": "exploration",
   "level_note": v[1],
  }
  for k, v in sorted(checks.items())
 ],
 "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
 "notes": "No hooks in /repo: every source of nondeterminism is behind a public API. See DESIGN.md.",
}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
