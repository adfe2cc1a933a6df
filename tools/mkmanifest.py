#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from properties.jsonl"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C21": "a pure function of the arguments of one call: no schedule, fault, clock or I/O that could change its outcome, so there is nothing to simulate",
    "C22": "a pure function of the format arguments; what depends on I/O (interrupted and partial writes) or threads is decided as part of C13 and C18",
    "C23": "compile-time macros that expand in the client and compare local values: no schedule, fault or I/O takes part",
    "C24": "the Windows and Detours sources cannot be compiled or run here: there is no Windows toolchain and the code is excluded from the Unix build",
}
ORACLE = {
    "C01": "guard page of every live block compared after each call and probed by accesses of the client while other threads run",
    "C02": "contents and accessibility of every live block against the reference heap, at every protection change and after every call",
    "C03": "released ranges tracked from the release on: any opening, re-use or give-back without a reason in the reference model, and probes by the client",
    "C04": "the protected and mapped amounts recomputed at every kernel call, with a reason required for giving back and a reason for not protecting",
    "C05": "every failing call needs a refused system call or unrepresentable size, the documented result, errno and nothing left protected",
    "C06": "any termination, fault or diagnosis of a program that obeys the rules",
    "C07": "double, racing, wild and mismatched releases: a diagnosis and the end before the call returns",
    "C08": "overwritten padding is reported by the next covering check and never otherwise",
    "C09": "alignment, usable size and contents of each returned block against the reference heap",
    "C10": "parsed leak reports against the set of live blocks; with concurrent calls against the blocks live throughout and live at some time",
    "C11": "the accessible mappings compared with live blocks at each moment without a call in progress",
    "C12": "step bounds per call, deadlock detection, lock state when no call is in progress",
    "C13": "bytes that reached each output against the diagnosis, no step of any thread after the end of the process",
    "C14": "protocol automaton of operator new: handler calls, handler installed, result, lock free during the handler",
    "C15": "positions in diagnoses, trace and leak lines against the positions of the client's calls",
    "C16": "settings in force, defaults, one initialisation whichever call is first, clean end when memory is refused",
    "C17": "address, accessibility and release of zero-size blocks by strategy",
    "C18": "parsed trace lines matched one to one with the calls, totals with the lines",
    "C19": "mapped bytes between phases against a bound from live and protected blocks",
    "C20": "ownership of each page checked at each kernel call, contents and protection of the program's own mappings compared",
}
checks, na = [], []
for line in open(here + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    else:
        checks.append({
            "property": p,
            "quick_cmd": f"./check.py {p} --tier quick",
            "thorough_cmd": f"./check.py {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": "deterministic simulation with fault injection (seeded schedules, kernel placements and faults); oracle: " + ORACLE[p],
            "level": "exploration",
            "level_note": "Seeded search, not exhaustive: the property held in every simulated run. Real duma code under a simulated kernel, scheduler and client; "
                          "threads switch at instrumented accesses and intercepted calls under sequential consistency; x86-64 Linux configuration. "
                          "Each violation is replayed twice in fresh processes and minimised before it is reported.",
        })
json.dump({"version": 1, "setup_cmd": "./check.py build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the seams are the system and library calls, redirected when the simulator is linked. Known and fixed defects: known-findings.txt. Design: DESIGN.md."},
          open(here + "/MANIFEST.json", "w"), indent=1)
