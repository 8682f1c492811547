#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
TRACE = "TLA+ specification (Dax.tla) model checked with TLC; histories generated on the real tag server decided against it by TLC (DaxTrace)"
C = {}
for p in "C01 C02 C03 C04 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16".split():
    C[p] = (TRACE, "model_checking", "every recorded step of the real server is decided by TLC against the explicit specification; bounded by the histories generated")
LIBT = "TLA+ specification (Dax.tla, DaxLib.tla) decided by TLC over histories of the real client library on a real tag server (DaxTrace)"
for p in "C05 C17".split():
    C[p] = (LIBT, "model_checking", "every recorded call of the real library is decided by TLC against the explicit specification; bounded by the histories generated")
C["C18"] = ("TLA+ specification (Dax.tla, DaxLib.tla, DaxConc.tla): TLC searches for a serial order that explains the recorded history of overlapping calls (linearizability)", "model_checking", "every recorded history of overlapping calls is decided by TLC against the explicit specification; bounded by the schedules that occurred, with random delays injected at locks, reads and writes")
C["C19"] = ("TLA+ specification (DaxText.tla: exact numbers, decimal fractions, calendar) decided by TLC over recorded conversions of the real library (DaxTrace)", "model_checking", "every recorded conversion is decided by TLC against the explicit specification; all values of the 8 bit types, the thorough run also all of the 16 bit types, samples and boundaries of the others")
MBT = "TLA+ specification (DaxModbus.tla on top of Dax.tla, DaxLib.tla) decided by TLC over histories of the real Modbus module and a real tag server (DaxTrace)"
C["C20"] = (MBT, "model_checking", "every recorded request and answer of the real module, and every access of other clients in between, is decided by TLC against the explicit specification; bounded by the histories and configurations generated")
C["C21"] = ("TLA+ specification (DaxLua.tla on top of Dax.tla, DaxLib.tla) decided by TLC over histories of a real Lua interpreter with the real package and a real tag server (DaxTrace)", "model_checking", "every recorded call and its Lua result, and what other clients see afterwards, is decided by TLC against the explicit specification; bounded by the values and histories generated")
NA = {}
exec(open(os.path.join(D, "manifest_extra.py")).read()) if os.path.exists(os.path.join(D, "manifest_extra.py")) else None
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "checks": [{"property": p, "quick_cmd": "python3 /verif/harness/check.py %s quick" % p,
                 "thorough_cmd": "python3 /verif/harness/check.py %s thorough" % p,
                 "technique": t, "level": l, "level_note": n, "evidence_file": "evidence/%s.json" % p}
                for p, (t, l, n) in sorted(C.items())],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items()) if p not in C]}
with open(os.path.join(D, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
