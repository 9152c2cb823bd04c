#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl and the table below.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
SIM = "deterministic simulation: seeded search over goroutine schedules and injected faults under a simulated Go scheduler, clock and randomness; oracle is a fresh-process reference run"
GEN = "deterministic simulation with fault injection at the system-call seam of the real generator/importers; reference model of the output files, crash and error at every system call plus seeded combinations"
T = {
 'C01': (SIM, 'exploration', ''),
 'C02': (SIM, 'exploration', ''),
 'C03': (SIM, 'exploration', ''),
 'C04': (SIM, 'exploration', ''),
 'C05': (SIM, 'exploration', ''),
 'C06': (SIM, 'exploration', ''),
 'C07': (SIM, 'fault_enumeration', ''),
 'C08': (SIM, 'exploration', ''),
 'C09': (SIM, 'exploration', ''),
 'C10': (GEN, 'exploration', ''),
 'C11': (GEN, 'fault_enumeration', ''),
 'C12': (GEN, 'fault_enumeration', ''),
 'C13': (GEN, 'fault_enumeration', ''),
 'C14': (SIM, 'exploration', ''),
 'C15': (SIM, 'exploration', 'Growth is judged on deterministic cost counters (statements, memory moved, memory looked at, allocation), never on wall-clock time.'),
}
NOTE = "Sampled schedules and faults: a clean batch is evidence, not proof. Scheduling points are statement boundaries and blocking operations; weaker memory orders are covered by the race detector in the same simulated runs. Trusts the Go toolchain (overlaid runtime) and the harness in /verif."
PURE = "Pure function of its input: no schedule, clock, I/O, fault or history takes part in it, so there is nothing for a simulator to decide; generating inputs for it would be input fuzzing, not simulation. (That the function is independent of schedule and history is C01, C03, C08.)"
checks, na = [], []
for p in props:
    i = p['id']
    if i in T:
        t, lvl, extra = T[i]
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
            "technique": t, "level": lvl, "level_note": (extra + ' ' + NOTE).strip()})
    elif i.startswith('P'):
        na.append({"property": i, "reason": PURE})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./check.sh warm", "checks": checks, "not_applicable": na,
 "notes": "No hooks in /repo: every seam (scheduler, clock, randomness, system calls, stored bytes) is put in by build overlays made from /repo's working tree. Replay: ./check.sh replay FILE."}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
