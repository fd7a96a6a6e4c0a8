"""A check: collects what was explored, reports violations, writes the evidence."""
import contextlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import tlc

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, "evidence")
FINDINGS = os.path.join(ROOT, "known_findings.txt")


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.counts, self.assumptions = [], {}, []
        self.violations = []
        self.tmp = tempfile.mkdtemp(prefix="ndm-%s-" % pid)
        self.findings = load_findings(pid)
        self.found = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- specification runs ----
    def tlc(self, module, **kw):
        r = tlc.check(module, **kw)
        self.states += r.distinct
        self.transitions += r.transitions
        return r

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    # ---- violations ----
    def violation(self, what, detail, replay):
        key = "%s: %s" % (what, detail)
        for f in self.findings:
            if f in key:
                if f not in self.found:
                    self.found.add(f)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, f))
                return
        self.violations.append((what, detail, replay))

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        shutil.rmtree(self.tmp, ignore_errors=True)
        for n, (what, detail, replay) in enumerate(self.violations[:5]):
            path = os.path.join(EVIDENCE, "%s-replay-%d.json" % (self.pid, n + 1))
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, what=what, detail=detail, replay=replay), f, indent=1, default=str)
            print("%s: %s" % (what, detail))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        if len(self.violations) > 5:
            print("... and %d more" % (len(self.violations) - 5))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, samples=self.samples[:3])
        cov.update(self.counts)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %s; %d states, %d transitions, %d traces against the code, %.1f s" % (
            self.pid, "%d violations" % len(self.violations) if self.violations else "held",
            self.states, self.transitions, self.traces, time.time() - self.t0))
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


class Unbuildable(Exception):
    """the message classes cannot hold what the message type defines"""


class Endless(BaseException):
    """the code under test does not come to an end"""


@contextlib.contextmanager
def limit(seconds=20):
    """bounds the processor time of the code under test"""
    def ring(*_):
        raise Endless("not finished after %d s" % seconds)
    old = signal.signal(signal.SIGPROF, ring)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def load_findings(pid):
    """texts of the known findings of a property (fixed ones suppress nothing)"""
    out = []
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property=%s " % pid):
                    out.append(line.split(" ", 2)[2])
    return out


def parallel(fn, items, procs=8, chunk=None):
    """map over items in processes, in order of the items; fn must not raise"""
    items = list(items)
    if not items:
        return []
    procs = min(procs, len(items))
    ctx = mp.get_context("fork")
    with ctx.Pool(procs) as pool:
        return pool.map(fn, items, chunksize=chunk or max(1, min(16, len(items) // (procs * 4))))


def main(pid, body):
    ck = Check(pid)
    try:
        try:
            body(ck)
        except Unbuildable as e:
            ck.violation("message classes", str(e), {})
        code = ck.finish()
    except Exception:
        traceback.print_exc()
        ck.cleanup()
        sys.stdout.flush()
        sys.exit(3)
    sys.stdout.flush()
    sys.exit(code)
