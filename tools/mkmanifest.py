#!/usr/bin/env python3
"""Writes MANIFEST.json: every check in checks/ is claimed, the rest is listed with its reason."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
T = {
 "C01": ("runtime monitoring: snapshot oracle over randomised backup/restore runs", "exploration"),
 "C02": ("runtime monitoring: full before/after snapshots of hostile in-place restores", "exploration"),
 "C03": ("runtime monitoring: per-backup snapshots against restores by number over random histories", "exploration"),
 "C04": ("runtime monitoring: executable reference model against the metadata after every backup of random histories", "exploration"),
 "C05": ("runtime monitoring: independent selection oracle against the recorded paths", "exploration"),
 "C06": ("runtime monitoring: fault-injected and re-laid-out configurations, status/message/repository oracle", "exploration"),
 "C07": ("runtime monitoring: ptrace supervisor kills the real program at every mutating system call, invariant checks afterwards", "fault_enumeration"),
 "C08": ("runtime monitoring: recorded write/sync/rename trace checked offline against a disk model with volatile caches", "fault_enumeration"),
 "C09": ("runtime monitoring: injected errors and short transfers at every system call, outcome oracle", "fault_enumeration"),
 "C10": ("runtime monitoring: file changes scheduled between system calls of a running backup, integrity oracle", "exploration"),
 "C11": ("runtime monitoring: builds with a weakened checksum, content-partition oracle over stored files", "exploration"),
 "C12": ("runtime monitoring: set-difference oracle around collections with planted foreign files", "exploration"),
 "C13": ("runtime monitoring: planted damage against the reported list", "exploration"),
 "C14": ("sanitizers (ASan, UBSan) and snapshot monitors on mutated metadata, independent parser as oracle", "exploration"),
 "C15": ("sanitizers (ASan, UBSan, MSan) on hostile workloads", "exploration"),
 "C16": ("runtime monitoring: processes interleaved call by call through ptrace, mutual exclusion checked on the trace", "exploration"),
 "C17": ("runtime monitoring: every mutating system call traced and resolved, plus snapshots", "exploration"),
 "C18": ("runtime monitoring: reference model predicts every line of the report", "exploration"),
 "C19": ("runtime monitoring: repeated runs with inode/ctime snapshots", "exploration"),
 "C20": ("runtime monitoring: path spelling and argument workloads, snapshot oracle", "exploration"),
 "C21": ("runtime monitoring: committed repositories of an earlier build and an independent reader/writer of the format", "exploration"),
 "C22": ("runtime monitoring: planted damage, then restore; status and content oracle", "exploration"),
 "C23": ("runtime monitoring: scaled workloads under resource limits, in optimised and unoptimised builds", "exploration"),
 "C24": ("runtime monitoring: the real sources run as i386 and as simulated big endian machines which take turns; reference model, strict parser and twin runs as oracles", "exploration"),
 "C25": ("runtime monitoring: moved, copied and synchronised repositories, equivalence oracle", "exploration"),
 "C26": ("runtime monitoring: restores killed or failed at every mutating system call, then repeated; snapshot oracle", "fault_enumeration"),
 "C27": ("runtime monitoring: arbitrary standard input, trace of mutating calls before the deciding answer", "exploration"),
}
NOTE = {
 "exploration": "Held on the executions observed (seeded random workloads, numbers in the evidence file); trusts the Python oracles, the kernel's tmpfs and the harness; nothing is claimed about executions not driven.",
 "fault_enumeration": "Every mutating system call of each explored run was used as fault point; the runs themselves are a seeded random sample. Trusts the ptrace supervisor, the Python oracles and tmpfs semantics.",
}
NA = {}
EXTRA = {"C24": "Held on the executions observed. The 32 bit programs are real i386 code; big endian machines are simulated by a compiler pass which byte-swaps every integer in memory, so what a real big endian compiler or C library would do differently is not seen."}
m = {"version": 1, "setup_cmd": "python3 lib/build.py", "checks": [], "not_applicable": []}
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
for p in props:
    if os.path.exists(os.path.join(ROOT, "checks", p.lower() + ".py")) and p in T and p not in sys.argv[1:]:
        t, lvl = T[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
                            "technique": t, "level": lvl, "level_note": EXTRA.get(p, NOTE[lvl])})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "its check is not finished yet")})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "claimed", [x["property"] for x in m["not_applicable"]])
