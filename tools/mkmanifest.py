#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
REPLAY = "TLA+ message composer and reader machine, TLC behaviours replayed into the code"
NOTE = ("TLC checks the specification (composer against reader machine) on every generated message; each message is then made "
        "concrete and the real reader/writer must state exactly the specified facts. Holds for the behaviours generated: sweeps "
        "over the whole vocabulary plus seeded chance. Trusts the frozen vocabulary and the projection of message objects.")
TECH = {
    "C13": ("TLA+ model of format recognition, all short texts enumerated by TLC and replayed",
            "All sequences of text pieces up to the bound are enumerated by TLC with their verdict and tried against the code."),
    "C14": ("TLA+ model of combined messages, TLC behaviours replayed",
            "All small multisets of members enumerated by TLC; members are composed messages."),
    "C15": ("TLA+ model of the entry points, TLC behaviours replayed in several locales",
            "Every combination of entry point, path type, format and locale for generated contents."),
    "C16": ("TLA+ model of API histories, TLC traces replayed against the code",
            "Histories enumerated and simulated by TLC; each operation's result is compared with the one the specification gives it alone."),
    "C17": ("TLA+ model of object and file ownership, TLC traces replayed against the code",
            "Histories with mutations and refused writes; all live objects and files are compared with the specification state after every step."),
    "C21": ("TLA+ model of concurrent clients, TLC schedules replayed with threads",
            "All schedules within the bounds on slices and switches for the sampled pairs and triples of operations; a schedule is followed exactly by a deterministic scheduler."),
    "C20": ("TLA+ model of malformed documents, TLC behaviours replayed",
            "Every element position of generated documents is corrupted in every listed way and must be refused."),
    "C24": ("TLA+ model of KVN lines in other orders, TLC behaviours replayed",
            "Seven permutations of the keywords of every block of generated messages; TLC checks that the reader machine states the same facts, the code must give the same object."),
    "C25": ("TLA+ model of damaged KVN documents, TLC behaviours replayed",
            "Damages of 23 kinds at every n-th place (thorough: every place) and chains of them; TLC checks on the reader machine that it states nothing the lines do not say, and the same is looked for in every object the code reads."),
    "C22": ("TLA+ model of file operations step by step in a faulty file system, TLC behaviours replayed",
            "All pairs of operations and changes of the file system, and long chance histories; the faults are real ones (resource limits, odd paths), the whole directory and the process are compared after every step."),
    "C23": ("TLA+ model of operations broken off, TLC behaviours replayed at every line of the library",
            "Every line executed by a read or write of every type is a place to break off (first, middle and last time it is reached), followed by operations compared with the specification. Lines that enter, leave or clean up with/try blocks are left out."),
}
claimed = sys.argv[1:] or None
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
from harness import registry  # noqa: E402

checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.WHERE:
        t, n = TECH.get(i, (REPLAY, NOTE))
        checks.append(dict(property=i, quick_cmd="checks/check %s" % i, thorough_cmd="VERIF_TIER=thorough checks/check %s" % i,
                           technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="sh checks/setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the public API exposes the abstract state. The specification (TLA+, run by TLC) is in spec/: NdmSchema, NdmMessage, "
               "KvnReader, XmlReader, Generate, Compose, Order, Judge, FormatDetect, Combined, NdmApi, Malformed, Damage, Concurrent, Footprint. The binding is in harness/.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
