"""Writes MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: "
NOTE = {
    "C01": ("seeded histories of queries in simulated processes, stored graph compared with a reference model",
            "Every stored graph is compared, node by node and relationship by relationship, with what the "
            "query generator meant. Covers the query language the generator writes (all value types, three-node "
            "patterns, handles, several statements, odd blanks); values outside it are C07's."),
    "C02": ("kill, Ctrl-C and power loss at every storage operation, graph compared with acknowledged queries",
            "Power loss keeps flushed data plus a seeded part of the rest; each query in doubt must be there whole "
            "or not at all."),
    "C03": ("crash and I/O fault sequences followed by a fault-free suffix that must succeed at once",
            "Liveness is judged as success at the first attempt within 20,000 system calls once faults stop."),
    "C04": ("interleaved and crashing sessions; every number seen is remembered for the whole run",
            "Reuse is recognised through the identity (labels, ends, properties) first seen under a number."),
    "C05": ("indexes compared with the graph whenever no operation runs, through crashes and schedules",
            "The exactness half is judged only in runs where nothing failed."),
    "C06": ("I/O errors, full disk, ENOMEM, short transfers at every storage call of every query",
            "Errors strike single calls or persist for the rest of the query."),
    "C07": ("seeded histories mixing 27 kinds of refusable queries with good ones; stores compared byte for meaning",
            "Covers the kinds of refusal the generator knows; acceptance of one counts as a violation too."),
    "C08": ("seeded schedules of 2-5 sessions at system-call granularity, compared with a reference model",
            "Processes interleave at system calls; flock semantics as on Linux."),
    "C09": ("FIND answers compared with the model after seeded histories, under schedules and faults",
            "Judges only what the statement says: 'no results' only if nothing matches, and never a write."),
    "C10": ("simulated clock with jumps, skew, time zones and DST; stored times must lie in the query's window",
            "The window is the range of clock values the process read or could read during the query."),
    "C11": ("racing, killed, failing and power-cut creations under seeded schedules",
            "Completeness is judged by opening, using and crashing after the creation."),
    "C12": ("whole-tree write monitor over seeded histories of creation, use, wiping and deletion",
            "Every mutation is attributed to the operation that made it; hidden work files next to a DBMS are "
            "allowed. Destructive calls reach only the in-memory file system."),
    "C13": ("every mutation of a live file is an observation point, plus concurrent readers",
            "Interleaving at system-call granularity with small buffers, so every partial write is seen."),
    "C14": ("the real shell loop on a scripted terminal, with faults inside its queries",
            "MemoryError is injected at storage calls, not at arbitrary allocations."),
    "C15": ("files damaged between queries; every byte compared around the MAKE",
            "Damage is restricted to what no longer parses, as the statement says."),
    "C16": ("seeded schedules with kills, stalls and errors; deadlock and step-bound detection",
            "Progress is judged under fair schedules by bounded steps."),
    "C17": ("shell and menu driven on a scripted terminal over seeded life cycles of many DBMSs",
            "The menu is read as text; each offered name must have a key of its own."),
    "C18": ("kills, power loss and errors at every storage operation of a wipe",
            "The store after a cut-short wipe must be the old one or empty."),
    "C19": ("differential: the same schedule with and without log device faults",
            "Both executions use the same recorded schedule; only the log device differs."),
    "C22": ("sessions in which 16-36 operations fail or are refused; files and descriptors counted afterwards",
            "A constant number of left-over files (12) is allowed, growth with the number of failures is not. "
            "Kills and errors that strike the tidying itself are left out."),
}
NA = {
    "C20": "Pure function from one text to one mapping: no schedule, clock, I/O, fault or second party can change "
           "its outcome, so a simulator decides nothing that plain input generation would not. What a "
           "history-level check can see of it (stored values equal written values; unstorable ones refused) is "
           "decided as part of C01 and C07.",
    "C21": "Pure function from one text to an exception kind and message: nothing of it depends on schedule, clock, "
           "I/O or faults. That such queries are refused and change nothing is decided as part of C07.",
}


def main():
    py = "/opt/venv/bin/python"
    checks = []
    for p, (t, n) in NOTE.items():
        checks.append({
            "property": p,
            "quick_cmd": "%s check.py --property %s --tier quick" % (py, p),
            "thorough_cmd": "%s check.py --property %s --tier thorough" % (py, p),
            "evidence_file": "evidence/%s.json" % p,
            "technique": TECH + t,
            "level": "exploration",
            "level_note": n + " Seeded search, not exhaustive: assurance grows with the runs reported in the "
                              "evidence. Trusts the simulated kernel and file system in sim/.",
        })
    doc = {
        "version": 1,
        "setup_cmd": "%s -B -c \"import sys; sys.path.insert(0, '.'); import sim.explore\"" % py,
        "hooks": {
            "guard": "none needed",
            "enable": "No hooks in /repo: the seams are the Python entry points to the operating system, which "
                      "sim/patch.py replaces inside the checking process only.",
            "source_commits": [],
        },
        "checks": checks,
        "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
