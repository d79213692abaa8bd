#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (from properties.jsonl and tools/not_applicable.json)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na = json.load(open(here + "/tools/not_applicable.json"))
off = {x["property"] for x in na}
T = {
 "C01": ("crash injection", "every state after a mutating call is what a kill at that instant leaves; power-loss images are sampled"),
 "C02": ("errno, short-transfer and EINTR injection", "faults are sampled one to a few per run over every call kind"),
 "C03": ("damaged inputs and faulty reads", "kinds of damage are those of the generator"),
 "C04": ("batches with faults at one member", "each outcome is compared with the same file alone in a fresh process"),
 "C05": ("chunked and interrupted delivery", "three modes against one reference run"),
 "C06": ("simulated trees, listing orders and spellings against a reference model", "model of the nearest configuration written from README"),
 "C07": ("faults at the configuration look-up", "outcome is the nearest configuration, or untouched and reported"),
 "C08": ("adversarial trees and listings against a reference model", "model of the selection written from README"),
 "C09": ("every call of a run without -i under faults", "any mutating call on the simulated file system is a violation"),
 "C10": ("whole-tree comparison under faults", "the whole simulated tree is compared, contents, names, modes, links, owners"),
 "C11": ("faulty standard output", "accepted bytes against the concatenation of the results of the files alone"),
 "C12": ("faulty and chunked standard input", "output is complete or empty, and then a report"),
 "C13": ("histories of kills, power losses and errors, then a good run", "final tree against the tree of one undisturbed run"),
 "C14": ("seeded interleaving of several processes", "every system call is a scheduling point; a reader looks after every event"),
 "C15": ("trees with cycles and FIFOs, storms of interrupts", "bounded number of calls, and never blocked for ever"),
 "C16": ("seeded thread schedules of library calls", "preemption at allocator calls, lock waits and system calls; races between plain loads and stores without such a call between them are out of reach"),
 "C18": ("the same world with few and with unlimited descriptors", "trees of up to a few hundred files"),
 "C19": ("spies of other users look after every change, under faults and kills", "permission bits, owner and group only, no ACLs"),
 "C20": ("a second program strikes between any two calls", "one to four changes per run, each atomic"),
 "C17": ("the same world twice under different nondeterminism", "stdout, stderr and tree of the two runs are compared"),
}
props = [json.loads(l) for l in open(here + "/properties.jsonl") if l.strip()]
checks = []
for p in props:
    i = p["id"]
    if i in off:
        continue
    t, n = T[i]
    checks.append({
        "property": i,
        "quick_cmd": "./check.sh %s quick" % i,
        "thorough_cmd": "./check.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection: " + t,
        "level": "exploration",
        "level_note": "Seeded search over simulated executions of the real %s; %s. Trusts the simulated kernel and the generators." % ("library" if i == "C16" else "binary", n),
    })
m = {
    "version": 1,
    "setup_cmd": "./tools/build.sh lib",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: libc is the seam. Replay: ./replay.sh FILE. Findings and repairs: known-findings.txt. Design: DESIGN.md.",
}
open(here + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
