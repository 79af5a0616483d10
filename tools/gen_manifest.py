#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over "
CHECKS = {
    "C01": ("thread schedules", "Exploration of seeded schedules, pools and scenario subsets of generated models; bitwise comparison with the sequential run. Trusts the scheduler's placement of switching points (rayon synchronisation, solver calls, locks)."),
    "C02": ("hash seeds, clocks and run histories", "Exploration; bitwise comparison of results and text outputs between worlds that differ only in hash seeds, clocks, process history and process."),
    "C03": ("failure points and thread schedules", "Exploration of injected solver, parameter and feasibility failures against the failure-free run of the same seed."),
    "C04": ("histories, thread schedules and run interruptions judged step by step against a reference model of the network", "Exploration; every step of every scenario is re-derived by an independent reference interpreter of the model file. Trusts that interpreter."),
    "C05": ("histories, thread schedules and run interruptions judged step by step against a reference model of storage", "Exploration; volumes are re-derived from the flows by an independent reference interpreter. Trusts that interpreter."),
    "C06": ("histories, thread schedules and run interruptions judged step by step against a reference model of virtual storage", "Exploration; licence volumes are re-derived from flows and the calendar by an independent reference interpreter."),
    "C07": ("histories of warm, cold, repeated and failing solves under two solver libraries, judged against an independently built linear program", "Exploration; the least cost of each step is recomputed by an independently built program and a fresh solver instance. Trusts the solver library's fresh solve."),
    "C08": ("thread schedules, failures and transfer histories of multi-network models judged against each network alone", "Exploration; every transferred value is compared with the sender's, and every network is judged by the reference interpreter given only what it was sent."),
    "C09": ("histories, thread schedules and run interruptions judged against a reference evaluator of parameters", "Exploration; parameter values are re-derived by an independent reference interpreter."),
    "C10": ("simulated calendars and clocks judged against an independent calendar", "Exploration; time-steps and calendar-driven values are re-derived by an independent calendar."),
    "C11": ("scenario subsets and thread schedules judged against an independent enumeration of scenarios", "Exploration; scenario membership, labels and scenario-dependent values are re-derived by an independent interpreter."),
    "C12": ("run lengths, histories and thread schedules judged against an independent aggregation of the recorded history", "Exploration; aggregated records are re-derived from the run's own step-by-step history by an independent reference. Values are recomputed with a tolerance for the order of summation."),
    "C13": ("output combinations, thread schedules and benign I/O behaviour (short writes, interrupted calls)", "Exploration; every file is read back and compared record by record with the run's own history."),
    "C14": ("disk faults at every kind of write operation and crash points of the simulated disk", "Exploration; a run that reports success must have left complete outputs, and crash states are prefixes. Errors of close() are not injected for CSV files."),
    "C15": ("faults of the simulated disk while inputs are read, damage to stored files, and calendars", "Exploration; every value used is looked up by an independent reader of the same files. Read errors cannot be injected below memory-mapped CSV files; open errors can."),
    "C16": ("interleavings of step-wise sessions, pools, pauses, abandonment and variable updates", "Exploration; bitwise comparison of every session with one uninterrupted run of its own (of its own variable history), in one process."),
    "C17": ("thread schedules, batch compositions, solver histories and solver failures", "Exploration; runs of different batch compositions are compared bitwise, and each step is judged by the reference interpreter. Costs are judged to 0.01 % because of the solver's own tolerance; the solver may give up with an error."),
}
NA = {
    "C18": "Serialisation of a value to JSON and back is a pure function of one input: there is no schedule, clock, I/O fault or history for a simulator to control.",
    "C19": "Conversion of a v1 file is a pure function of one input: there is no schedule, clock, I/O fault or history for a simulator to control.",
    "C20": "Rejecting an invalid model is a pure function of one file: the behaviour under injected file faults is decided with C15; the rest has nothing for a simulator to control.",
}
props = [json.loads(l)["id"] for l in open(f"{ROOT}/properties.jsonl")]
checks, na = [], []
for p in props:
    if p in CHECKS:
        what, note = CHECKS[p]
        checks.append({"property": p, "quick_cmd": f"bin/check.sh {p} quick", "thorough_cmd": f"bin/check.sh {p} thorough",
                       "technique": TECH + what, "level": "exploration", "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "Not claimed yet: its check is still being built.")})
m = {"version": 1, "setup_cmd": "bin/build.sh", "checks": checks, "not_applicable": na,
     "notes": "One harness (sim/dst) runs the real code under simulated threads, clocks, hash seeds and disk; see DESIGN.md. No hooks in /repo are needed: every seam is at the libc or rayon-core boundary or a public trait."}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
open(f"{ROOT}/MANIFEST.json", "a").write("\n")
