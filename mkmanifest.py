#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = "deterministic simulation with fault injection: seeded search over schedules and faults, "
how = {
 "C01": "replicas checked against the authority's history at every version and for convergence after faults stop",
 "C02": "crashes at byte granularity on a simulated disk; recovery compared with the durable history and a never-crashed twin",
 "C03": "stale, duplicated, corrupted and crafted steps; panics, aborts, hangs and effects of refused steps watched for",
 "C04": "every accepted document checked by an independent schema and text-normal-form checker",
 "C05": "every replace step compared, acceptance and result, with a token-splicing reference model",
 "C06": "every mark step compared with a reference model of marked text units",
 "C07": "every replace-around step compared with a reference model of gap and slice",
 "C08": "every structural step compared with the model's view of what it would overwrite, and with the same step unflagged",
 "C09": "optimistic clients roll their own steps back and rebase; each result compared with the document held before",
 "C10": "positions probed at random parties and versions against positions recounted from the model",
 "C11": "values encoded and decoded through simulated streams that split, interrupt, fail, end early or fill up",
 "C12": "cuts, slices, walks and texts probed at random parties and versions against the model",
 "C14": "documents published at random versions through a file that keeps, converts or loses parts of them; faithful ones compared after import",
 "C15": "what torn, half-overwritten, garbled and foreign files hold is imported, compared with a reference importer and the schema, proposed as a step and edited on",
 "C16": "threads that share values preempted by a seeded scheduler at any memory access or lock, each compared with what it sees alone in a fresh process; deadlock and lack of progress watched for",
 "C17": "malformed documents reach parties in the middle of runs and are read, edited, copied and exported; every result compared with a splicing model",
 "C18": "nodes of random parties and versions taken apart and reassembled by every public way, compared with trees built from the same parts",
 "C19": "an independent party that knows only the JSON format and the reference model joins at random versions, reads, follows and contributes",
 "C20": "every refused step, replacement, range and position of any party: the reason it was given checked against the reference model",
 "C13": "fit queries at random parties and versions, of nodes and of types, compared with the schema and with the later acceptance of the step",
}
note = ("Seeded search, no proof: the property held in every simulated run of the tier (counts in the evidence "
        "file). Real: all of the library in every party, built with overflow checks and debug assertions. "
        "Simulated: network, disk, clocks, crashes, users and the service loop around the library. Trusted: the "
        "reference model in sim/src/model.rs.")
note16 = ("Seeded search, no proof: the property held in every simulated run of the tier (counts in the evidence "
          "file). Real: the library and the threads, compiled with a preemption point at every memory access. "
          "Simulated: the scheduler and lock waits; memory is sequentially consistent. Not preempted inside: "
          "the precompiled part of std. Send and Sync are demanded at compile time.")
checks = [{
    "property": p,
    "quick_cmd": f"VERIF_TIER=quick bash check.sh {p}",
    "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p}",
    "evidence_file": f"evidence/{p}.json",
    "technique": T + how[p],
    "level": "exploration",
    "level_note": note16 if p == "C16" else note,
} for p in sorted(how)]
na = []
m = {"version": 1, "setup_cmd": "bash check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is public (Step::apply, the model API, serde's readers and writers). "
     "KNOWN_FINDINGS.txt lists the defects found and repaired; two panics of the dependency pulldown-cmark (C15) are listed as findings."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
