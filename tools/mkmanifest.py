#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "TLA+ trace validation (TLC): recorded engine calls and outputs of the real code against FftTrace.tla and NumTrace.tla",
 "C02": "TLA+ trace validation (TLC): recorded impulse responses of the real code against NumTrace.tla",
 "C03": "TLA+ trace validation (TLC): recorded engine calls and outputs against FftTrace.tla and NumTrace.tla",
 "C04": "TLA+ trace validation (TLC) against ReshapeTrace.tla over TLC-enumerated (Partitions.tla) and random pairs of distributions",
 "C05": "TLC model checking of the redistribution protocol (Reshape.tla over Mpi.tla) and trace validation of recorded MPI events (MpiTrace.tla) under adversarial schedules",
 "C06": "TLA+ trace validation (TLC): engine calls of the planned transforms against FftTrace.tla",
 "C07": "TLA+ trace validation (TLC): recorded results of the geometry functions, random and exhaustive small cases, against GeomTrace.tla",
 "C08": "TLA+ trace validation (TLC): batched runs against FftTrace.tla and NumTrace.tla",
 "C09": "TLA+ trace validation (TLC): guarded and poisoned buffers, recorded and judged by FftTrace.tla and NumTrace.tla",
 "C10": "TLA+ trace validation (TLC): who computes which box, judged by FftTrace.tla",
 "C11": "TLC model checking of the validity test (Validity.tla) and trace validation of recorded requests (ValidTrace.tla) and refused calls (HistTrace.tla)",
 "C12": "TLC-generated histories (History.tla) replayed into the real code and validated against HistTrace.tla",
 "C13": "TLC model checking of the kernels over a finite field (R2rKernel.tla) and trace validation: recorded impulse responses of the sine and cosine transforms against R2rTrace.tla",
 "C14": "TLC-generated histories (History.tla) replayed through the C interface and validated against HistTrace.tla, impulse responses against NumTrace.tla",
 "C15": "TLC model checking of every call graph of the engine over a finite field (Engine.tla), trace validation: recorded call graphs against TreeTrace.tla and responses for every length, vectorised and scalar, against ExecTrace.tla",
 "C16": "TLA+ trace validation (TLC): recorded responses of the node-local engines on boxes of every layout against ExecTrace.tla",
 "C17": "TLC-generated sessions (TraceGen.tla over TraceLog.tla) replayed into the real code, log files validated against TraceLogTrace.tla",
 "C18": "TLA+ trace validation (TLC): sessions of the Python interface on the in-process MPI, acceptance of every call judged by Calls.tla and results by Response.tla (PyTrace.tla)",
 "C19": "TLC model checking of plan ownership (Handles.tla), TLC-generated sessions replayed into the Fortran modules and validated against HandlesTrace.tla, transforms against NumTrace.tla",
}
NOTE = {}
LEVEL = {}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
import importlib.util, sys
sys.path.insert(0, V + "/tools")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "none", "enable": "", "source_commits": []},
     "checks": [], "not_applicable": [], "notes": "TLA+ with TLC. No hooks in /repo: the drivers in harness/ compile the sources of the working tree against an in-process MPI (mpi/)."}
for p in props:
    if p in T:
        m["checks"].append({"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "python3 tools/check.py %s --thorough" % p, "evidence_file": "evidence/%s.json" % p, "technique": T[p], "level": LEVEL.get(p, "model_checking"), "level_note": NOTE.get(p, "bounded: see DESIGN.md")})
    else: m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
