#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIFF = "runtime monitoring: differential trace monitor (scripted host event log vs reference interpreter)"
CHECKS = {  # id: (technique, note)
    **{i: (DIFF, "Random projects, schedules and host behaviours; every observable event of the real VM is compared with the reference interpreter.") for i in
       "C01 C03 C04 C05 C06 C07 C08 C13 C14 C15 C16 C17 C18 C19 C20 C24 C25 C26".split()},
    **{i: ("runtime monitoring: per-operation reference oracle and law monitor on the running VM", "Random expression batteries over edge-case, shared and cyclic values; every block result is compared with an independent reference and with algebraic laws.") for i in "C09 C10 C11 C12".split()},
    "C21": ("runtime monitoring: transition monitor on the live property state, exhaustive colour round trip", "Random update sequences through blocks and through the public functions; every observed transition is compared with a reference transition and every state with its range."),
    "C22": (DIFF, "Random media programs (notes, durations, sounds, images) whose host commands and values are compared with independent note/duration tables and the reference interpreter."),
    "C23": ("runtime monitoring: isomorphism monitor between declared and observed initial state", "Random declared value graphs (sharing, cycles, media); the initial heap of the running project is walked and compared for isomorphism."),
    "C29": ("runtime monitoring: call-log monitor over layered configurations", "Random layerings of request/command handlers; the log of calls into each layer and the outcome seen by the script are compared with the layering rule."),
    "C31": ("runtime monitoring: range, coverage and independence monitors over repeated draws", "Random operands incl. extreme bounds, lists and shared lists; every draw is checked against its range and the random words consumed."),
    "C02": ("runtime monitoring: listing monitor and padded differential runs", "The compiled listing is checked byte by byte and each random project is run with and without other code around it; logs and traces must be identical."),
    "C28": ("runtime monitoring: offline history checker over multi-threaded stress runs", "Threads with injected delays complete, poll, clone and drop keys and update and read clocks; recorded histories are judged offline and the distinct interleavings counted."),
    "C32": ("runtime monitoring: offline checker over the event log of a loopback server and the running scripts", "The real StdSystem talks to a scripted server on the loopback that delays, repeats, corrupts, withholds and drops; what it was sent and what the scripts saw is judged after every run."),
    "C33": ("runtime monitoring: offline checker against a reference file system over the real program's output and files", "The real nb --fs process runs random file-handling scripts in a scratch folder; every call's result and finally every file are compared with a reference, including broken text, full disks and misuse."),
    "C34": ("runtime monitoring: monitor of every drawn screen line, key and answer of the real program on a pseudo-terminal", "The real nb run process is driven on a pseudo-terminal: questions, typed answers with corrections, keys, resizes, Escape and Ctrl-C; what it draws and says and the terminal mode it leaves are judged against the typed history."),
    "C35": ("runtime monitoring: step-by-step monitor of the rendered extension running under node", "The rendered script runs in node against stand-ins for the editor; after every step of a random session its requests, terminal text, buttons and block comments are compared with a reference."),
    "C30": ("runtime monitoring: offline checker over HTTP answers, printed output and exit codes of the real program", "The real nb process is driven over HTTP with random command histories, unusable projects, competing pollers; what it printed, handed over and held is judged after every case."),
    "C36": ("runtime monitoring: byte-exact allocation monitor over long runs of bounded programs", "A counting allocator watches random programs that keep bounded data for hundreds of turns of inputs, messages, errors, clones and stops: no unbounded growth after full collections, and nothing left once the instance is dropped."),
    "C37": ("runtime monitoring: reference interpreter and lockstep of a bare process with its project", "Random projects are assembled by hand from the script listing and compared with the reference; single scripts and blocks are stepped as bare processes next to a project of just that script, comparing every effect, result, error and the state left."),
    "C27": ("runtime monitoring: model-based container monitor", "Random operation histories compared after every operation with a reference container."),
}
NOT_YET = "no check yet; work in progress"
props = [json.loads(l)["id"] for l in open(f"{HERE}/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for i in props:
    if i in CHECKS:
        t, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough", "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_YET})
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
open(f"{HERE}/MANIFEST.json", "a").write("\n")
