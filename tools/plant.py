#!/opt/venv/bin/python
"""Turns planted-bug definitions into /verif/seeded/<id>/ after trying them in a scratch copy.

usage: plant.py DEFS.py [ID...]   DEFS.py defines BUGS (see tools/bugs_*.py)
A definition: dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=python text)
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
PY = "/opt/venv/bin/python"
ENV = {"HOME": "/root", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "PATH": os.environ["PATH"], "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}


def base_lines(path):
    out = subprocess.run(["git", "-C", "/repo", "show", "ea31df3:" + path], capture_output=True, text=True).stdout
    return {x.strip() for x in out.split("\n")}


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, capture_output=True, text=True, timeout=300)


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return set(b.get("stable") or b.get("tests"))


def plant(bug):
    work = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    wt = os.path.join(work, "repo")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
        subprocess.run(["git", "clone", "-q", "/repo", wt], check=True)
        for path, old, new in bug["edits"]:
            p = os.path.join(wt, path)
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                return "edit matches %d times: %s" % (s.count(old), old[:60])
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        patch = sh("git diff", wt).stdout
        removed = [x[1:].strip() for x in patch.split("\n") if x.startswith("-") and not x.startswith("---")]
        orig = set()
        for path, _, _ in bug["edits"]:
            orig |= base_lines(path)
        if not [x for x in removed if x and x in orig]:
            return "no original line changed: %r" % removed[:3]
        mine = [x for x in removed if x and x not in orig]
        d = os.path.join(work, "demo")
        os.mkdir(d)
        shutil.copy(os.path.join(HERE, "demo_messages.py"), os.path.join(d, "messages.py"))
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write('"""%s"""\n' % bug["breaks"].replace('"', "'"))
            f.write("import os\nimport sys\n\nsys.path[:0] = [os.getcwd(), os.path.dirname(os.path.abspath(__file__))]\nsys.dont_write_bytecode = True\nfrom messages import *\n\n")
            f.write(bug["demo"].strip("\n") + "\n")
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        r = sh("sh %s/demo.sh" % d, "/repo")
        if r.returncode:
            return "demo fails on the unchanged tree: " + r.stderr[-600:]
        r = sh("sh %s/demo.sh" % d, wt)
        if not r.returncode:
            return "demo passes with the change"
        why = (r.stderr or r.stdout).strip().split("\n")[-1][:150]
        r = sh(PY + " -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml=%s/j.xml" % work, wt)
        sh("/usr/bin/python3 /opt/vp/results.py %s/out.json junit:%s/j.xml" % (work, work), wt)
        passed = set(json.load(open(work + "/out.json")).get("passed", []))
        miss = stable() - passed
        if miss:
            return "breaks %d tests: %s" % (len(miss), sorted(miss)[:2])
        out = os.path.join(SEEDED, bug["id"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        shutil.rmtree(os.path.join(out, "__pycache__"), ignore_errors=True)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        json.dump(dict(property=bug["prop"], needs=bug["needs"], what_it_breaks=bug["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        return "planted (%s)%s" % (why, " NB also touches own line" if mine else "")
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    for bug in bugs:
        if sys.argv[2:] and bug["id"] not in sys.argv[2:]:
            continue
        print(bug["id"], bug["prop"], plant(bug), flush=True)
