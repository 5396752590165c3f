#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the property modules present"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/pypyvenv/bin/python"
NA = {
    "C18": "Pure arithmetic on its argument: no schedule, clock, fault, I/O or shared state for a simulator to control; deterministic simulation decides nothing here that plain input generation would not.",
    "C19": "Reading and printing a hand is a pure function of the text; the parts that do meet schedules (in-place re-ordering of shared hands) are claimed under C12.",
    "C20": "Constant tables: a finite pure function without schedule, fault, clock or I/O.",
}
NOTES = {
    "C01": "Seeded search over simulated matches and tracker schedules, judged against an independent table model after every event; assumes that model's reading of the mjlog format.",
    "C02": "Seeded search over simulated matches and replay schedules incl. restarts, every property of the state compared with the table after every event.",
    "C03": "Seeded search over lost, duplicated, reordered and altered log events; a reference replayer decides what must be accepted, and where a contradiction must be reported.",
    "C04": "Seeded interleaving, threads parked at any line, abandonment, cancellation at any line and failing events; compared with the same log translated alone by freshly imported code.",
    "C05": "Seeded version trees and interleaved replays compared with a model of persistent maps; every version is re-read at the end.",
    "C06": "Seeded matches with hostile names, real CSV files behind a faulty disk (ENOSPC, EIO, short transfers), compared with the commands and states in memory.",
    "C07": "Real requests/urllib3 over virtual sockets and a virtual clock with seeded network faults, compared with the server's log; every wait is compared with the caller's timeout.",
    "C08": "Seeded matches, the HTML of the report read back and compared with the table truth and an independent shanten reference.",
    "C09": "Real tools with scripted console, virtual network and faulty disk; files are compared at the moment of each announcement and after the end or death of the process.",
    "C10": "Real tool with recorded random draws and a virtual clock; every printed count recomputed by an independent hand matcher.",
    "C11": "Seeded interleavings of drawings over shared walls with extreme random values; proportionality by chi-square with an error probability below 1e-9.",
    "C12": "Real threads serialised by a seeded scheduler that can preempt or cancel at any line; answers compared with reference arithmetic.",
    "C13": "Seeded consumption schedules and source errors against a model of runs.",
    "C14": "Seeded matches; the flat export compared entry by entry with the table truth.",
    "C15": "Seeded matches with connection and unknown events anywhere; the loaded record compared with the table truth.",
    "C16": "Seeded matches loaded through a faulty disk (short reads, EIO, truncation, concurrent loads), compared with what was written.",
    "C17": "Seeded order, interleaving and cancellation of all uses of one record; compared with a fresh record in freshly imported code.",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
    elif not os.path.exists(os.path.join(HERE, "dst", "props", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "The check is not built yet."})
    else:
        checks.append({
            "property": pid,
            "quick_cmd": "VERIF_TIER=quick %s -B /verif/check.py %s" % (PY, pid),
            "thorough_cmd": "VERIF_TIER=thorough %s -B /verif/check.py %s" % (PY, pid),
            "technique": "deterministic simulation with fault injection (seeded schedule and fault search)",
            "level": "exploration",
            "level_note": NOTES[pid],
        })
m = {"version": 1,
     "setup_cmd": "%s -B /verif/check.py --selfcheck" % PY,
     "checks": checks, "not_applicable": na,
     "notes": "No hook was added to /repo: every seam is a public parameter, a module attribute or the interpreter's own trace function. Replay: check.py --replay FILE."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
