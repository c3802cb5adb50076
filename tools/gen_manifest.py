#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = {
 "C01": ("stateful property-based testing against an independent protocol model", "Every call of each generated history is compared with a small reference model of the protocol (status code and acceptance)."),
 "C02": ("differential property-based testing of histories with and without rejected calls", "The same history without the rejected calls is run on a second modeler; all later statuses and results must be equal bit for bit."),
 "C03": ("property-based testing, invariants of result times and counts", "Counts, spacing and order of result times per update are recomputed from the inputs."),
 "C04": ("property-based testing against a reference spring model in double precision", "Every result is compared with one step of the documented equations from the result before it; tolerance bounded by float rounding."),
 "C05": ("property-based testing against a nondeterministic reference of the catch-up", "Each catch-up result must be a step that the documented halving and stopping rules allow, within float rounding of a decision."),
 "C06": ("property-based testing against a direct moving-average reference", "The smoothed position is recomputed from the list of inputs in double precision, and observed through the modeler."),
 "C07": ("property-based testing against a recomputed turn estimate", "The number of results of each move is compared with the larger of the rate's and the angle's demand."),
 "C08": ("property-based testing against a nearest-point reference", "The admissible places on the polyline are recomputed in double precision; ties accept either place."),
 "C09": ("stateful property-based testing against a three-flag model", "Exact: known or unknown, field by field, over histories of strokes."),
 "C10": ("property-based testing against a geometric reference of the normal's crossings", "All crossings are enumerated in double precision; uncertain decisions accept every admissible place."),
 "C11": ("differential and reference property-based testing, mitigation on against off", "The blend weight is recomputed from the observed speeds, the unmitigated tip is observed on a second modeler."),
 "C12": ("metamorphic property-based testing: Predict calls inserted into histories", "Exact equality with the history without the Predict calls."),
 "C13": ("metamorphic property-based testing: prediction against an actual up event", "Exact equality with the catch-up of an up on a saved and restored modeler; reference model when smoothing is on."),
 "C14": ("property-based testing against a reference Kalman filter and cubic in double precision", "Filter, connector, confidence and extension are recomputed; tolerance by forward error estimate."),
 "C15": ("stateful metamorphic property-based testing of Save/Restore", "Exact equality with a modeler that never made the undone calls."),
 "C16": ("stateful metamorphic property-based testing: dirty against fresh modeler, interleaved modelers, modelers on several threads", "Exact equality of a stroke on a used and on a fresh modeler, with moves of the object and other modelers in between; a second stage runs independent modelers on threads under ThreadSanitizer."),
 "C17": ("structured fuzzing under address and undefined-behaviour sanitizers, libFuzzer in the thorough tier", "Every bit pattern in every field; crash, sanitizer report, hang or excess memory is a violation. Runs are in child processes with CPU and memory limits."),
 "C18": ("property-based testing against an independent validity predicate", "Acceptance is compared with the documented ranges field by field; ignored fields are changed and the results compared exactly."),
 "C19": ("metamorphic property-based testing: change of units and axes", "Bit-for-bit correspondence under power-of-two scalings, quarter turns, axis swaps and time shifts."),
 "C20": ("property-based testing of output limits", "Counts the results of each call and compares rejections with the number of results required."),
 "C21": ("property-based testing of finiteness and ranges", "Every field of every result in strokes with degenerate timing and geometry."),
 "C22": ("stateful property-based testing against a reference Kalman filter, plus metamorphic laws", "Double precision reference of the filter equations; exact laws for shift, scale, copy and reset; matrix operators against their definitions."),
 "C23": ("property-based testing of algebraic laws", "Operators against component-wise arithmetic, exact; the angle against a long double reference."),
 "C24": ("metamorphic property-based testing: stylus values replaced", "Exact equality of motion, and of the fields left alone, with the same stroke with other stylus values."),
 "C25": ("property-based testing of text output by parsing it back", "The numbers in the text are parsed and compared with the fields."),
 "C26": ("stateful property-based testing of memory held over repeated strokes", "Bytes held after every window is full are compared with those after at least 6000 inputs more, and must all be released at the end."),
 "C27": ("stateful property-based testing of work done over repeated strokes", "Branches executed in the library (compiler instrumentation) for six repetitions once every window is full are compared with those for six repetitions at least 6000 inputs later."),
}
TRUST = " Exploration by generated cases, not proof; trusts the compiler and the harness's own reference code."
m = {
 "version": 1,
 "setup_cmd": "clang++-18 --version >/dev/null && make --version >/dev/null && python3 -c 'import json' && pkg-config --exists absl_status absl_strings && echo ready",
 "checks": [{
   "property": k,
   "quick_cmd": "python3 check.py %s quick" % k,
   "thorough_cmd": "python3 check.py %s thorough" % k,
   "evidence_file": "evidence/%s.json" % k,
   "technique": t,
   "level": "exploration",
   "level_note": n + TRUST,
 } for k, (t, n) in sorted(T.items())],
 "not_applicable": [],
 "notes": "No hooks in /repo: every property is decided at the public interface or at the headers of the internal components. /repo's commits are fixes only; see KNOWN_FINDINGS.txt.",
}
ids = [json.loads(l)["id"] for l in open(V + '/properties.jsonl')]
assert sorted(ids) == sorted(T), set(ids) ^ set(T)
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write("\n")
