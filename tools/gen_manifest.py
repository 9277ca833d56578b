#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
 "C01": ("reference-model monitor: an independent semantic layout model decides the lines of random executions", "independent recursive model of the notation semantics (harness/src/model.rs), shares no code with the crate"),
 "C02": ("differential trace monitor: focused prints against the root print", "the root print of the same code is the reference (C01 checks that one)"),
 "C03": ("reference-model monitor of the focus position and of error returns", "positions from the model's provenance of every printed character"),
 "C04": ("search-based oracle: alternative layouts enumerated by the model, printed widths observed", "documents small enough to enumerate or solve all layouts"),
 "C05": ("reference-model monitor with free-monoid styles, which record every combination in order", "styles are token lists, so order and place of lookup are observable"),
 "C06": ("online invariant monitor over every line delivered", "widths recomputed with an independent table-based display width"),
 "C07": ("conservation monitor over printed characters across widths and focuses", "documents generated to be width-neutral"),
 "C08": ("reference-model monitor: an independent validator decides verdicts on random and exhaustive small notations", "the validator (valid.rs) is written from the documentation"),
 "C09": ("robustness monitor: hostile documents, panics and non-termination watched, errors compared with the model", "non-termination: 90 s of CPU per case"),
 "C10": ("trace-specification monitor over recorded PrettyDoc calls, plus differential run with overridden methods", "every call to the document is recorded and checked online"),
 "C11": ("fault injection with a trace monitor: every call position and node made to fail", "failure-free run of the same print is the reference"),
 "C12": ("cost monitor: document calls and allocations counted while documents grow", "limits are factors over the cost in a small document of the same kind, not wall-clock"),
 "C13": ("allocator and stack monitor while streaming, deep and wide documents in processes with limited stacks", "counting global allocator; unoptimised build for stack use"),
 "C14": ("schedule monitor: random interleavings of iterators and threads against sequential prints", "sequential prints of the same code are the reference"),
 "C15": ("recording window with an online cell-ownership monitor", "window shadow state in the harness"),
 "C16": ("reference-model monitor: independent divider against rectangles recovered from draw calls", "rectangles recovered from per-pane style tokens"),
 "C17": ("reference-model monitor: cells drawn against lines delivered by pretty_print", "pretty_print (decided by C01-C03) is the reference for lines"),
 "C18": ("trace monitor matching set_focus calls to drawn cells", "focus position from pretty_print of the same document"),
 "C19": ("fault injection at every window call with a prefix monitor", "failure-free display is the reference"),
 "C20": ("history monitor: shadow grid against the plain-text window", "shadow grid in the harness"),
 "C21": ("round-trip monitor: output parsed by an independent JSON parser and by serde_json", "numbers are finite; comments located by the harness's own scanner"),
 "C22": ("round-trip monitor over two serializers", "serde_json and bincode, from the cargo cache"),
 "C23": ("differential monitor: testing oracle against the printer", "domain restricted to what the oracle documents"),
 "C24": ("reference-model monitor over random construction histories, on several threads", "ids, separators and styles recomputed by the harness"),
 "C25": ("AddressSanitizer, LeakSanitizer, ThreadSanitizer and Miri over the other monitors' workloads", "verdicts only from sanitizer reports; deliberate faults confirm that each tool notices"),
 "C27": ("reference-model monitor: notations built by constructors and operators, read back part by part", "the expected notation is built in step with the calls, in the harness's own representation"),
 "C28": ("metamorphic monitor: documents and their rewritings printed side by side", "the rewriting rules are the harness's; both printouts come from the code, so this oracle does not depend on the layout model"),
 "C29": ("reference-model monitor: displays, comparisons and sources of random values against the harness's own", "the wording of errors is free, but for the numbers and the inner message in it"),
 "C26": ("round-trip monitor over the real command-line program in subprocesses", "output parsed by an independent JSON parser"),
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
assert ids == sorted(T), (ids, sorted(T))
m = {
 "version": 1,
 "setup_cmd": "./build.sh main unopt json && python3 tools/sanitize.py --build",
 "hooks": {"guard": "none", "enable": "nothing to enable: the public interface is observable enough, no hooks were added to /repo", "source_commits": []},
 "checks": [
  {"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
   "evidence_file": "evidence/%s.json" % i, "technique": T[i][0],
   "level": "exploration",
   "level_note": "Held on the executions observed, which the evidence file counts; " + T[i][1] + "."}
  for i in ids],
 "not_applicable": [],
 "notes": "run.sh rebuilds from /repo's working tree; see DESIGN.md. All output under /verif/target and /verif/evidence (ignored by git).",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
