#!/opt/venv/bin/python
"""Planted changes none of whose removed lines is of the original repository (they would not count)."""
import os
import re
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^fix:"], capture_output=True, text=True).stdout.split()
blame = {}


def own(path):
    if path not in blame:
        out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", path], capture_output=True, text=True).stdout
        blame[path] = [x.split()[0].lstrip("^") for x in out.split("\n") if x]
    return blame[path]


for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    path, n, theirs, mine = None, 0, [], []
    for line in open(os.path.join(HERE, "seeded", d, "patch.diff"), encoding="utf-8"):
        if line.startswith("--- a/"):
            path = line[6:].strip()
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-") and not line.startswith("---"):
            c = own(path)[n - 1]
            (mine if any(b.startswith(c[:30]) for b in BASE) else theirs).append(line[1:].strip())
            n += 1
        elif line.startswith(" "):
            n += 1
    theirs = [x for x in theirs if x and not x.startswith("#")]
    if not theirs:
        print(d, "mine:", mine[:2])
