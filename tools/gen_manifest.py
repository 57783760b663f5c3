#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json (which properties have a check) and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(V + "/checks.json"))
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
 "C19": "A pure function of one call's arguments: no schedule, time, I/O, randomness or fault can change the pose of a chain, so simulation has nothing to decide here (its use by other threads is decided under C06, its use inside calibrations under C05).",
 "C20": "A pure, stateless conversion of one value: nothing the simulator controls can influence it (its effect inside solvers is decided under C01-C04, memory and thread effects under C06 and C07).",
 "C21": "Formatting of values already computed, with no concurrency, time, I/O failure or history for the text to depend on (the reports printed by the offline programs are compared with the truth under C22).",
}
PENDING = "A check for this property is still being built."
T = "deterministic simulation with fault injection: seeded search over "
TECH = {
 "C01": T + "delivery histories (loss, duplication, reordering, delay, occlusion) against a simulated work cell",
 "C02": T + "independent per-camera loss histories against a simulated multi-camera cell",
 "C03": T + "occlusion and delivery histories against a simulated scene",
 "C04": T + "capture histories with unusable views, compared with the run in which those views never existed",
 "C05": T + "worker-thread schedules and delivery histories under a baton scheduler",
 "C06": T + "thread interleavings of concurrent callers under a baton scheduler with happens-before race detection",
 "C07": T + "call histories with failing allocations, clock jumps, entropy and heap-layout changes",
 "C08": T + "noise, corruption and delivery histories against an independent residual model",
 "C09": T + "delivery histories and parameter placements against an independent information matrix",
 "C10": T + "save / overwrite / crash / reload histories on simulated storage with torn, lost and replaced entries",
 "C11": T + "crash points and storage faults (full disk, short and failing writes, lost files) during save and load",
 "C12": T + "finder failures and uneven capture histories against a table model",
 "C13": T + "message, trigger and failure histories of the node against a reference model, on a simulated middleware",
 "C14": T + "rendered scenes with occlusion, noise and foreign markers, and schedules of the image library's parallel loops",
 "C15": T + "session histories with unsolvable sessions against an independent statistics model",
 "C16": T + "corruption, loss and repetition histories against an independent model",
 "C17": T + "call orders, thread schedules and entropy faults over several seeded robots",
 "C22": T + "recorded sessions with lost, damaged and failing captures, bad indexes and bad parameters, the programs run whole",
 "C18": T + "parameter-service and file faults (missing, mistyped, truncated entries) during loading",
}
NOTE = "Sampled search: no violation in the explored seeds, not a proof. Trusts the simulated world and reference model (written from Eigen only), the seams listed in DESIGN.md, and the installed Ceres, OpenCV and yaml-cpp."
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "No hooks were needed in /repo: every seam is a link-time or include-path substitution made by /verif.", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in P:
    i = p["id"]
    if i in C:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                            "technique": TECH[i], "level": "exploration", "level_note": C[i].get("level_note", NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, PENDING)})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
