#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BI = "bounded exhaustive enumeration of inputs, run on the real code under a controlled scheduler, against a reference model"
SCHED = "stateless exploration of all schedules of the real code up to a preemption bound (controlled scheduler), with every order of environment events"
FAULT = "exhaustive enumeration of fault points of the real code under a controlled scheduler, against a reference model"
CRASH = "exhaustive enumeration of crash points of the real code, state of the disk checked at each"
EXACT = "Every execution within the stated bounds is run on the code of the working tree; nothing is sampled. Inputs, operation lists and schedules beyond the bounds are not covered."
T = {
 "C01": (BI, EXACT + " Trusts MD5 and the memory-backed files of the harness."),
 "C02": (BI, EXACT + " Blocks that occur only in places overlapped by other matches are not judged."),
 "C03": (BI, EXACT + " Includes indexes that claim every weak checksum, so that the strong comparison alone decides."),
 "C04": (FAULT, EXACT),
 "C05": (SCHED, EXACT + " Statements of the merger are preemption points."),
 "C06": (BI, EXACT),
 "C07": (FAULT, EXACT + " One listed known finding (answers split into several responses)."),
 "C08": (SCHED, EXACT + " Every order of requests, completions and reads; preemptions between them up to the bound."),
 "C09": (SCHED, EXACT + " Failures and corruptions at every transfer."),
 "C10": (SCHED, EXACT + " Close at every point of every history."),
 "C11": (BI, EXACT),
 "C12": (FAULT, EXACT + " A scripted server on the loopback interface answers; net/http is trusted."),
 "C13": (BI, EXACT),
 "C14": (FAULT, EXACT),
 "C15": (SCHED, EXACT),
 "C16": (BI, EXACT + " Concurrent lookups are explored with preemptions at every statement."),
 "C17": (FAULT, EXACT),
 "C18": (BI, EXACT),
 "C19": (BI, EXACT),
 "C20": (BI, EXACT + " Real files in a scratch directory."),
 "C21": (CRASH, EXACT + " A crash is modelled between any two statements of the code, with all writes so far in the files; loss of unsynced pages by the operating system is not modelled."),
 "C22": (FAULT, EXACT + " Real file system errors (limits on file size, removed and replaced files, closed descriptors, full device)."),
 "C23": (FAULT, EXACT + " Runs the command built from the working tree."),
 "C24": (SCHED, EXACT),
 "C25": (FAULT, EXACT + " A scripted server on the loopback interface answers."),
 "C26": (BI, EXACT + " Runs the command built from the working tree."),
 "C27": (BI, EXACT),
 "C28": (FAULT, EXACT + " Requests are answered by a transport inside the process; descriptors are read from /proc."),
 "C29": (FAULT, EXACT + " Runs the command built from the working tree."),
 "C30": (FAULT, EXACT + " Requests are also explored under all schedules up to the bound."),
 "C31": (FAULT, EXACT + " Runs the command built from the working tree, with indexes from pipes and from a scripted server."),
 "C32": (SCHED, EXACT + " Requests by HTTP are answered by a transport inside the process."),
 "C33": (BI, EXACT + " Part of the cases run the command built from the working tree."),
}
NOT_YET = os.environ.get("NOT_YET", "").split()
checks, na = [], []
for k, (tech, note) in T.items():
    if k in NOT_YET:
        na.append({"property": k, "reason": "check under construction"})
        continue
    checks.append({"property": k, "quick_cmd": f"bin/check.sh {k}", "thorough_cmd": f"VERIF_TIER=thorough bin/check.sh {k}",
                   "evidence_file": f"evidence/{k}.json", "technique": "model checking: " + tech, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "bin/check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the sources are rewritten for the controlled scheduler when a check is built (mc/instr, go build -overlay)."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
