#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
NOTES={
"C01":"Seeded simulation of client sessions (lockstep, window, pipelined) over all methods and id forms, on ledgers which load, fail to parse, fail to book or cannot be read; an answer is awaited before the next request can be sent, so lateness shows as a deadlock of the simulated client.",
"C02":"Sessions with invalid lines mixed in, compared answer by answer with the same session without them.",
"C03":"One session delivered in different pieces, with interrupted calls and short writes, must give the same bytes.",
"C05":"Trees of files with nested and wildcard includes; every site of failure (open, read, directory listing, canonicalisation) is hit at a seeded call; the ledger built is compared with the one the reference parser builds from the same files.",
"C04":"Sessions ended by end of input, by failing, short or refused reads and writes, or by a kill at a seeded system call; what was written must be the beginning of the undisturbed session's output, and a lost answer must show in the exit status.",
"C06":"Every file-system call of every run is mediated; anything which could change a file other than the log is a violation.",
"C07":"A question asked at different points of different histories, and while the ledger's files are changed or removed, must get the same answer.",
"C08":"The same files and requests under different hash seeds, clocks, directory orders, log settings and environment must give the same bytes.",
"C09":"Every location in every answer is resolved and compared with the text the ledger was rendered from.",
"C10":"Directives re-sent in any key order are booked as the ledger's own; parts of them as the reference model says.",
"C11":"Generated ledgers rendered to text in many layouts; the directives answered are compared with the abstract ledger.",
"C12":"Options, plugins and context of generated ledgers compared with the reference parser.",
"C13":"Bookings compared with the reference model of transaction weights and interpolation.",
"C14":"Bookings compared with the reference model of lots and booking methods.",
"C15":"Bookings compared with the reference model of balance assertions.",
"C16":"Bookings compared with the reference model of pads.",
"C17":"Bookings compared with the reference model of account life cycle and currencies.",
"C18":"All-or-nothing booking with complete, ordered errors, compared with the reference model.",
"C19":"Rendered reports taken apart and compared with the text they are about.",
"C20":"Logging with a failing, slow or full log device, or an unusable log path, must not change the protocol; every request is logged, after what was there.",
"C21":"Every exec and spawn of the launcher is simulated, with every environment and failure.",
"C22":"The table printed is compared with a reference renderer, under segmentation, interrupted and failed calls.",
"C25":"Mistakes planted in generated ledgers (also by failing opens and reads of included files); the reports are matched one to one with them, their places resolved.",
"C26":"Sessions of up to 120 rounds of the same requests; memory in use, open files, threads, allocations and system calls are taken whenever the server waits for the next request, and compared between the middle and the end.",
}
TRUST=" Seeded random exploration of the real binary under a simulated operating system (LD_PRELOAD seam, no hooks in the source): no exhaustiveness is claimed. Trusts the preload seam, and the reference model where one is consulted; what the reference leaves open is not generated (see DESIGN.md)."
m=dict(version=1,setup_cmd="bin/build.sh",checks=[],not_applicable=[
 dict(property="C23",reason="The plugin pipeline is Clojure code in clj/; there is no Clojure runtime or jar in this sandbox and none can be fetched, so its executions cannot be simulated (or run at all)."),
 dict(property="C24",reason="Inventories, journals and rollups are computed by Clojure code in clj/; there is no Clojure runtime or jar in this sandbox and none can be fetched, so its executions cannot be simulated (or run at all)."),
],notes="No hooks in /repo: the seam is the C library, replaced by sim/preload/preload.c. Replay: bin/replay.sh FILE. Genuine defects found: KNOWN_FINDINGS.txt.")
for k,v in NOTES.items():
    m["checks"].append(dict(property=k,quick_cmd=f"bin/check.sh {k}",thorough_cmd=f"env VERIF_TIER=thorough bin/check.sh {k}",evidence_file=f"evidence/{k}.json",
        technique="deterministic simulation of the real program with seeded schedules and fault injection",level="exploration",level_note=v+TRUST))
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1,ensure_ascii=False)
