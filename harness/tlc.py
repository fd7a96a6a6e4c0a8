"""Runs TLC on a specification in /verif/spec."""
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Result:
    def __init__(self, out, code):
        self.out, self.code = out, code
        m = re.findall(r"^(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out, re.M)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        m = re.search(r"Computed (\d+) initial state|Finished computing initial states: (\d+)", out)
        self.initial = int(m.group(1) or m.group(2)) if m else 0
        m = re.search(r"Finished computing initial states: (\d+)", out)
        if m:
            self.initial = int(m.group(1))
        self.ok = "Model checking completed. No error has been found" in out or "The number of states generated:" in out and "Error:" not in out
        m = re.search(r"Invariant (\S+) is violated", out)
        self.violated = m.group(1) if m else None

    @property
    def transitions(self):
        return max(0, self.generated - self.initial)

    def errors(self):
        i = self.out.find("Error:")
        return self.out[i:i + 3000] if i >= 0 else self.out[-3000:]


class MachineryError(Exception):
    pass


def run(module, cfg=None, env=None, workers=8, heap="6g", timeout=3000, args=()):
    """run TLC; raises MachineryError unless it came to an end by itself"""
    meta = tempfile.mkdtemp(prefix="tlc-")
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss32m", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
               "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg", *args, module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return Result(p.stdout.decode("utf-8", "replace"), p.returncode)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def check(module, **kw):
    """as run, for runs in which the specification must satisfy its invariants"""
    r = run(module, **kw)
    if not r.ok:
        raise MachineryError("TLC on %s: %s" % (module, r.errors()))
    return r
