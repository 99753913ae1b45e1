"""Writes MANIFEST.json from the properties and the check modules that exist."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from checks.meta import META
PY = "/opt/venv/bin/python"
TECH = {
    "direct": "runtime monitoring: generated calls to the real code compared with independent reference models",
    "sim": "runtime monitoring: recorded event logs of the real engine under a seeded scheduler, clock and network, judged by offline trace oracles",
    "real": "runtime monitoring: real sockets and threads under stress, judged by exactly-once event-log oracles",
    "native": "sanitizers: ASan/UBSan build of the extension plus an interposed libcrypto shim that checks bounds, initialisation and leaks",
}
NOTE = {
    "direct": "Held on every generated input (counts in the evidence file). Trusts the reference models in vlib, CPython, hashlib.",
    "sim": "Held on every explored schedule, fault pattern and history (counts in the evidence file). Trusts the reference agent and codec in vlib; threads switch at locks, events, sockets and source lines, not inside C calls.",
    "real": "Held on every observed execution over loopback UDP. Trusts the kernel's loopback delivery.",
    "native": "Held on every observed call into libcrypto. Trusts the sanitizer runtime and the shim.",
}
checks = []
for pid in sorted(META):
    m = META[pid]
    kind = m.get("kind", m["mode"])
    checks.append(dict(property=pid, quick_cmd=f"{PY} run.py {pid}", thorough_cmd=f"{PY} run.py {pid} --thorough",
                       evidence_file=f"evidence/{pid}.json", technique=m.get("technique", TECH[kind]), level="exploration", level_note=m.get("note", NOTE[kind])))
out = dict(version=1, setup_cmd=f"{PY} run.py --selftest", checks=checks, not_applicable=[],
           notes="run.py stages a copy of /repo/snmp, builds the extension in it and runs worker processes; no hooks in /repo are needed (the checks replace modules such as threading, time and socket from outside).")
known = {json.loads(l)["id"] for l in open(here + "/properties.jsonl")}
for pid in sorted(known - set(META)):
    out["not_applicable"].append(dict(property=pid, reason="no check yet"))
json.dump(out, open(here + "/MANIFEST.json", "w"), indent=1)
