"""Histories of Footprint.tla replayed against the library (C22, C23).

The places of the specification are files in a scratch directory of the process.  After
every operation the whole directory, the open descriptors and the state of the process
are compared with what the specification says.
"""
import ast
import contextlib
import decimal
import gc
import io as iomod
import json
import locale
import logging
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import socket
import sys
import tempfile
import threading
import warnings
from pathlib import Path
from xml.etree import ElementTree

from xsdata.formats.converter import converter

from . import api, engine, messages as m, objects, repo
from .values import Chooser

from ccsds_ndm.models.ndmxml2 import Ndm
from ccsds_ndm.ndm_io import NdmIo
from ccsds_ndm.ndm_kvn_io import NdmKvnIo
from ccsds_ndm.ndm_xml_io import NdmXmlIo

LIBRARY = os.path.join(os.path.realpath(repo.REPO), "ccsds_ndm") + os.sep
FMT = api.FMT
NEVER = ("loop", "long", "nul", "under/missing")


CUTS = 40


class BreakOff(BaseException):
    """what breaks an operation off"""


class Interrupted(BreakOff, KeyboardInterrupt):
    pass


class Ended(BreakOff, SystemExit):
    pass


# ---- where an operation can be broken off ----------------------------------------------
_kinds = {}


def lines_of(path):
    """lines of a source file at which an operation is broken off: statements, but no line that
    enters or leaves a with or try statement or cleans up, where nothing could be done about it"""
    with open(path, encoding="utf-8") as f:
        tree = ast.parse(f.read())
    ok, no = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, ast.stmt):
            ok.add(n.lineno)
        if isinstance(n, (ast.With, ast.AsyncWith)):
            no.update(range(n.lineno, n.body[0].lineno))
        if isinstance(n, ast.Try):
            no.update(range(n.lineno, n.body[0].lineno))
            for b in [*n.handlers, *n.finalbody]:
                no.update(range(b.lineno, b.end_lineno + 1))
    for n in ast.walk(tree):
        if isinstance(n, ast.stmt) and not isinstance(n, (ast.With, ast.AsyncWith, ast.Try)) and n.lineno in no:
            ok.discard(n.lineno)
    return ok - no


class Trace:
    """counts the steps of the library; breaks off at one of them"""

    def __init__(self, at=0, record=False, what=BreakOff):
        self.what = what
        self.at, self.n, self.seen, self.record = at, 0, [], record

    def __call__(self, frame, event, arg):
        f = frame.f_code.co_filename
        lines = _kinds.get(f)
        if lines is None:
            lines = _kinds[f] = lines_of(f) if os.path.realpath(f).startswith(LIBRARY) else ()
        return self.line if lines else None

    def line(self, frame, event, arg):
        if event == "line" and frame.f_lineno in _kinds[frame.f_code.co_filename]:
            self.n += 1
            if self.record:
                self.seen.append((frame.f_code.co_filename, frame.f_lineno))
            if self.n == self.at:
                raise self.what
        return self.line

    def __enter__(self):
        sys.settrace(self)

    def __exit__(self, *a):
        sys.settrace(None)


def points(seen):
    """the steps to break off at: every line when it is reached first, last, and in between"""
    where = {}
    for n, x in enumerate(seen):
        where.setdefault(x, []).append(n + 1)
    return sorted({v[i] for v in where.values() for i in (0, len(v) // 2, -1)})


# ---- the process ----------------------------------------------------------------------------
def descriptors():
    out = {}
    for x in os.listdir("/proc/self/fd"):
        try:
            out[int(x)] = os.readlink("/proc/self/fd/" + x)
        except OSError:
            pass
    return out


def process():
    c = decimal.getcontext()
    return dict(directory=os.getcwd(), environment=dict(os.environ), decimal=(c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, str(c.traps)),
                locale=locale.setlocale(locale.LC_ALL), recursion=sys.getrecursionlimit(), digits=sys.get_int_max_str_digits(),
                filters=list(warnings.filters), collector=gc.isenabled(), path=list(sys.path),
                streams=(id(sys.stdin), id(sys.stderr), id(sys.__stdout__)),
                random=hash(random.getstate()), signals=[signal.getsignal(x) for x in sorted(signal.valid_signals())],
                logging=(logging.root.level, list(logging.root.handlers), logging.root.disabled, logging.root.manager.disable),
                threads=threading.active_count(), hooks=(sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook),
                thresholds=gc.get_threshold(), switch=sys.getswitchinterval(), mask=mask(), sockets=socket.getdefaulttimeout(),
                namespaces=dict(ElementTree._namespace_map), converters={k: type(v) for k, v in converter.registry.items()})


def mask():
    m = os.umask(0o22)
    os.umask(m)
    return m


START = process()  # before anything is read or written
LASTING = ("decimal", "locale", "recursion", "digits", "filters", "collector", "signals", "logging", "hooks", "thresholds",
           "switch", "mask", "sockets", "namespaces", "converters")


def tree(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for x in dirs + files:
            p = os.path.join(base, x)
            n = os.path.relpath(p, d)
            if os.path.islink(p):
                out[n] = "link " + os.readlink(p)
            elif os.path.isdir(p):
                out[n] = "directory"
            else:
                with open(p, "rb") as f:
                    out[n] = f.read()
    return out


# ---- one history -------------------------------------------------------------------------------
class Walker:
    def __init__(self, job, tmp):
        self.label, self.hist, self.src, self.texts, self.shift = job
        self.d = os.path.join(tmp, "w")
        shutil.rmtree(self.d, ignore_errors=True)
        # names say nothing about what is there
        self.real, k = {}, 0
        while len(self.real) < 5:
            n = api.file_name(self.label, k)
            if n not in self.real.values():
                self.real["abcdf"[len(self.real)]] = n
            k += 1
        os.makedirs(self.path("d"))
        os.symlink(self.real["b"], os.path.join(self.d, "link"))
        os.symlink("loop", os.path.join(self.d, "loop"))
        self.world = {"d": ("dir",)}
        self.fault = "none"
        self.insts = dict(ndm=NdmIo(), kvn=NdmKvnIo(), xml=NdmXmlIo())
        self.obj, self.docs = {}, {}
        self.memo = {}
        for h in range(1, 4):
            self.obj[h], self.docs[h] = self.src[0].object(), 1
        self.c = Chooser(self.label)
        self.bad, self.left = [], False
        self.step = 0

    def path(self, p):
        if p == "long":
            return os.path.join(self.d, "x" * 300)
        if p == "nul":
            return os.path.join(self.d, "nul\0x")
        return os.path.join(self.d, *[self.real.get(x, x) for x in p.split("/")])

    def tree(self):
        back = {v: k for k, v in self.real.items()}
        t = {"/".join(back.get(x, x) for x in k.split("/")): v for k, v in tree(self.d).items()}
        return {k: "link b" if v == "link " + self.real["b"] else v for k, v in t.items()}

    def fail(self, detail):
        e = self.hist[self.step]
        self.bad.append(("step %d %s(%s)" % (self.step + 1, e["op"], ", ".join("%s=%s" % i for i in e["a"].items())), detail,
                         dict(history=self.hist[: self.step + 1], docs=[s.name for s in self.src], label=self.label, shift=self.shift, names=self.real)))

    def io(self, i, fmt):
        if i == "ndm":
            return self.insts["ndm"]
        if i == "own":
            return self.insts[fmt]
        return NdmIo() if self.c.chance(50, self.step, "io") else NdmKvnIo() if fmt == "kvn" else NdmXmlIo()

    def facts(self, d):
        if d not in self.memo:
            self.memo[d] = objects.project(self.src[d - 1].object())
        return self.memo[d]

    # ---- what is called ----
    def call(self, e):
        """(function, format) of an operation of the library"""
        a = e["a"]
        if e["op"] == "read":
            io, text = self.io(a["i"], a["f"]), self.src[a["d"] - 1].text(a["f"])
            return lambda: io.from_string(text)
        if e["op"] == "load":
            w = self.world.get("b" if a["p"] == "link" else a["p"], ("absent",))
            f = w[2] if w[0] == "text" else self.c.pick(["kvn", "xml"], self.step, "f") if w[0] != "junk" else ["kvn", "kvn", "kvn", "xml"][w[1] - 1]
            io, p = self.io(a["i"], f), self.spelt(a["p"])
            return lambda: io.from_path(p)
        io, o = self.io(a["i"], a["f"]), self.obj[a["h"]]
        fmt = (FMT[a["f"]],) if isinstance(io, NdmIo) else ()
        if e["op"] == "write":
            return lambda: io.to_string(o, *fmt)
        if e["op"] == "odd":
            o = self.src[self.docs[a["h"]] - 1].object()
            next(v for _, n, v in api.walk(o) if n == "header").originator = "half a character \ud83d"
        p = self.spelt(a["p"])
        return lambda: io.to_file(o, *fmt, p)

    def spelt(self, p):
        full = self.path(p)
        k = self.c.pick(["str", "Path", "rel", "like"], self.step, "path")
        if p == "nul" and k == "rel":
            k = "str"
        return {"str": full, "Path": Path(full), "rel": os.path.relpath(full, self.d), "like": api.Like(full)}[k]

    def room(self, e):
        """how many octets of the text a file may have"""
        n = len(self.texts[self.key(e)].encode("utf-8"))
        return self.c.pick([0, 1, n // 2, n - 1], self.step, "room")

    def key(self, e):
        return (self.src[self.docs[e["a"]["h"]] - 1].name, e["a"]["f"])

    # ---- running ----
    def run(self):
        for self.step, e in enumerate(self.hist):
            if e["op"] in ("put", "junk", "mkdir", "remove", "fault"):
                getattr(self, "world_" + e["op"])(**e["a"])
                continue
            fn = self.call(e)
            before, fds = process(), descriptors()
            limits = []
            if self.fault == "room" and e["op"] == "save":
                limits = [(resource.RLIMIT_FSIZE, self.room(e))]
            if self.fault == "descriptors":
                n = os.open("/", os.O_RDONLY)
                os.close(n)
                limits = [(resource.RLIMIT_NOFILE, n)]
            at = self.cut(e) if e["cut"] else 0
            out = iomod.StringIO()
            kind, got = self.do(fn, limits, at, out)
            if kind == "over":
                self.left = True
                break
            self.judge(e, kind, got)
            if out.getvalue():
                self.fail("prints %r" % out.getvalue()[:80])
            after = process()
            before.update((k, START[k]) for k in LASTING)
            for k in before:
                if after[k] != before[k]:
                    self.fail("%s of the process is changed: %r instead of %r" % (k, str(after[k])[-200:], str(before[k])[-200:]))
            got = None
            if descriptors() != fds:
                fn = None
                gc.collect()
                now = descriptors()
                if now != fds:
                    self.fail("left open: %s" % [v.replace(self.d, "") for k, v in now.items() if fds.get(k) != v])
            if not self.bad:
                self.look()
            if self.bad:
                break
        return self.bad[:1]

    def do(self, fn, limits, at, out):
        old = [(r, resource.getrlimit(r)) for r, _ in limits]
        t = Trace(at, what=[BreakOff, Interrupted, Ended][(at + self.step) % 3])
        try:
            with engine.limit(), contextlib.redirect_stdout(out):
                for r, n in limits:
                    resource.setrlimit(r, (n, resource.getrlimit(r)[1]))
                try:
                    if at:
                        with t:
                            got = fn()
                        return "over" if t.n < at else "swallowed", None
                    return "done", fn()
                finally:
                    for r, n in old:
                        resource.setrlimit(r, n)
        except Exception as e:
            if at:
                return "over" if t.n < at else "swallowed", e.with_traceback(None)
            return "failed", e.with_traceback(None)
        except BreakOff:
            return "broken", None
        except engine.Endless as e:
            return "endless", e

    def cut(self, e):
        """the step to break off at: part of all of them, or, when all are gone through, the one that is next"""
        d, f = e["a"].get("d"), e["a"].get("f")
        if e["op"] == "load":
            w = self.world.get("b" if e["a"]["p"] == "link" else e["a"]["p"], ("absent",))
            f, d = w[2:] if w[0] == "text" else ("kvn", 1)
        elif d is None:
            d = self.docs[e["a"]["h"]]
        steps = self.texts[("cut", "read" if e["op"] in ("read", "load") else "write", self.src[d - 1].name, f)]
        n = e["cut"] - 1
        n = n + CUTS * self.shift if self.shift is not None else self.c.num(self.step, "cut", n) % max(1, len(steps))
        return steps[n] if n < len(steps) else 10 ** 9

    def judge(self, e, kind, got):
        r = e["r"]
        if r["k"] == "broken":
            if kind != "broken":
                return self.fail("goes on" if got is None else "what breaks it off becomes %s: %s" % (type(got).__name__, str(got)[:200]))
            if e["op"] == "save" and self.reached(e["a"]["p"]):
                self.world[e["a"]["p"]] = ("some",)
            return None
        if r["k"] == "failed":
            if kind != "failed":
                return self.fail("no failure: %s" % (got if kind != "done" else type(got).__name__))
            if e["op"] == "save" and self.fault == "room" and self.reached(e["a"]["p"]):
                self.world[e["a"]["p"]] = ("some",)
            return None
        if kind != "done":
            return self.fail("%s: %s" % (type(got).__name__, str(got)[:200]))
        if r["k"] == "object":
            src = self.src[r["d"] - 1]
            want = Ndm if src.combined else objects.ROOTS[src.trials[0].t]
            if type(got) is not want:
                return self.fail("class %s instead of %s" % (type(got).__name__, want.__name__))
            d = objects.diff(self.facts(r["d"]), objects.project(got))
            if d:
                return self.fail("result: %s" % "; ".join(d[:3]))
            self.obj[e["a"]["h"]], self.docs[e["a"]["h"]] = got, r["d"]
            return None
        want = self.texts[self.key(e)]
        if e["op"] == "save":
            p = self.path(e["a"]["p"])
            if not os.path.isfile(p):
                return self.fail("no file")
            with open(p, "rb") as f:
                b = f.read()
            self.world[e["a"]["p"]] = ("text", b, e["a"]["f"], self.docs[e["a"]["h"]])
            got = b.decode("utf-8", "replace")
        if got != want and api.canonical(got) != api.canonical(want):
            return self.fail("text differs: %s" % m.first_diff(want, got))
        return None

    def reached(self, p):
        return p not in NEVER and ("/" not in p or self.world.get(p.split("/")[0], ("",))[0] == "dir") and self.world.get(p, ("",))[0] != "dir"

    def look(self):
        """the whole directory is as it should be"""
        want = {"link": "link b", "loop": "link loop"}
        for n, w in self.world.items():
            want[n] = "directory" if w[0] == "dir" else w[1] if w[0] == "text" else self.junk(w[1]) if w[0] == "junk" else None
        now = self.tree()
        broken = any(e["cut"] for e in self.hist[: self.step + 1])
        for n in sorted(set(want) | set(now)):
            if n in want and want[n] is None:
                if n in now and now[n] == "directory":
                    return self.fail("%s is a directory now" % n)
                continue
            if n not in want and broken:
                continue
            if want.get(n) != now.get(n):
                return self.fail("%s holds %r instead of %r" % (n, str(now.get(n))[:60], str(want.get(n))[:60]))
        for h, o in self.obj.items():
            d = objects.diff(self.facts(self.docs[h]), objects.project(o))
            if d:
                return self.fail("object %d: %s" % (h, "; ".join(d[:3])))
        return None

    # ---- somebody else ----
    def clear(self, n):
        p = self.path(n)
        if os.path.isdir(p):
            shutil.rmtree(p)
        elif os.path.lexists(p):
            os.remove(p)
        for x in [x for x in self.world if x == n or x.startswith(n + "/")]:
            del self.world[x]

    def place(self, n, b):
        self.clear(n)
        with open(self.path(n), "wb") as f:
            f.write(b)

    def world_put(self, n, d, f):
        b = self.src[d - 1].text(f).encode("utf-8")
        self.place(n, b)
        self.world[n] = ("text", b, f, d)

    def junk(self, j):
        src = self.src[-1]
        if j == 1:
            return src.trials[0].kvn_text().replace("CREATION_DATE", "COMMENT caf\u00e9\nCREATION_DATE", 1).encode("latin-1", "replace")
        return {2: "", 3: "no message at all\n", 4: src.text("xml")[: len(src.text("xml")) * 2 // 3].rstrip() + ">"}[j].encode("utf-8")

    def world_junk(self, n, j):
        self.place(n, self.junk(j))
        self.world[n] = ("junk", j)

    def world_mkdir(self, n):
        self.clear(n)
        os.mkdir(self.path(n))
        self.world[n] = ("dir",)

    def world_remove(self, n):
        self.clear(n)

    def world_fault(self, x):
        self.fault = x


# ---- driver -----------------------------------------------------------------------------------
def play(args):
    batch, tmp = args
    d = tempfile.mkdtemp(prefix="f", dir=tmp)
    os.mkdir(os.path.join(d, "w"))
    warm()
    bad, left = [], 0
    for job in batch:
        w = Walker(job, d)
        os.chdir(w.d)
        bad += w.run()
        left += w.left
        os.chdir("/")
    shutil.rmtree(d, ignore_errors=True)
    return len(batch) - left, bad[:3], left


def warm():
    """what the first use of a process loads is loaded"""
    for t in ("ndm", "opm"):
        for io in (NdmIo(), NdmXmlIo(), NdmKvnIo()):
            try:
                io.from_string("<%s/>" % t)
            except Exception:
                pass


def text_or_steps(item):
    """the text of a document, or the steps of an operation on it, in an untouched process"""
    key, src = item
    warm()
    try:
        with engine.limit(60):
            if key[0] == "cut":
                _, what, _, f = key
                io = NdmKvnIo() if f == "kvn" else NdmXmlIo()
                text, o = src.text(f), src.object()
                t = Trace(record=True)
                with t:
                    io.from_string(text) if what == "read" else io.to_string(o)
                return key, points(t.seen)
            o = src.object()
            return key, NdmKvnIo().to_string(o) if key[1] == "kvn" else NdmXmlIo().to_string(o)
    except (Exception, engine.Endless) as e:
        return key, [] if key[0] == "cut" else "refused: %r" % e


def known(jobs):
    """texts and steps of all documents of the jobs"""
    items = {}
    for _, hist, src, _ in jobs:
        for s in src:
            for f in ("kvn", "xml"):
                items[(s.name, f)] = s
                if any(e["cut"] for e in hist):
                    for what in ("read", "write"):
                        items[("cut", what, s.name, f)] = s
    with mp.get_context("fork").Pool(8, maxtasksperchild=8) as pool:
        return dict(pool.map(text_or_steps, [(k, v) for k, v in items.items()], chunksize=1))


def histories(ck, name, plan, num=0):
    d = os.path.join(ck.tmp, "foot-" + name)
    os.mkdir(d)
    with open(d + ".json", "w") as f:
        json.dump(plan, f)
    args = ("-simulate", "num=%d" % num, "-seed", str(ck.seed * 31 + 7), "-depth", str(8 * plan["len"] + 4)) if num else ()
    ck.tlc("Footprint", env=dict(FOOT_PLAN=d + ".json", FOOT_OUT=d), workers=1, args=args)
    out = []
    for x in sorted(os.listdir(d), key=lambda x: int(x.split(".")[0])):
        with open(os.path.join(d, x)) as f:
            out.append(("%s/%s" % (name, x), json.load(f)["hist"]))
    ck.count("histories", len(out))
    if len(ck.samples) < 3 and out:
        ck.samples.append(dict(history=out[len(out) // 2][1]))
    return out


def with_docs(ck, hists, pool, docs, profiles=("plain", "spell")):
    """documents for histories"""
    jobs = []
    types = sorted(pool)
    for label, hist in hists:
        c = Chooser((ck.seed, label))
        src = []
        for k in range(docs):
            d = c.pick(pool[c.pick(types, k)], k, "d")
            src.append(api.Source([d], c.pick(profiles, k, "p"), (ck.seed, d["path"])))
        jobs.append((label, hist, src, None))
    return jobs


def replay(ck, jobs, per=40):
    table = known(jobs)
    batches = []
    for i in range(0, len(jobs), per):
        part = []
        for label, hist, src, shift in jobs[i:i + per]:
            names = {s.name for s in src}
            part.append((label, hist, src, {k: v for k, v in table.items() if (k[2] if k[0] == "cut" else k[0]) in names}, shift))
        batches.append((part, ck.tmp))
    with mp.get_context("fork").Pool(8, maxtasksperchild=4) as pool:
        for n, bad, left in pool.imap_unordered(play, batches, chunksize=1):
            ck.traces += n
            ck.count("broken off too late", left)
            for what, detail, rep in bad:
                ck.violation(what, detail, rep)


PLACES = ["a", "b", "link", "d/c", "a/f", "loop", "long", "nul", "under/missing"]
BASE = dict(docs=1, handles=1, places=PLACES, insts=["ndm"], ops=[], cuts=1, broken=0, aim=True, len=2)


def plan_of(**kw):
    p = dict(BASE)
    p.update(kw)
    return p


def c22(ck):
    pool = api.pool_of_docs(ck, ck.q(4, 12))
    # the machine itself, with an interrupt before every step
    histories(ck, "steps", plan_of(docs=1, places=["a", "b", "link", "a/f", "nul"], ops=["put", "mkdir", "fault", "load", "save"], broken=1, aim=False, len=2))
    ops = ["put", "junk", "mkdir", "remove", "fault", "load", "save", "odd"]
    jobs = with_docs(ck, histories(ck, "pairs", plan_of(ops=ops, insts=["ndm", "own"])), pool, 1)
    c = Chooser(ck.seed)
    jobs = [j for j in jobs if ck.thorough or c.chance(60, j[0])]
    jobs += with_docs(ck, histories(ck, "sim", plan_of(docs=3, handles=3, insts=["ndm", "own", "fresh"], ops=ops + ["load", "save"], len=14),
                                    num=ck.q(800, 8000)), pool, 3)
    replay(ck, jobs)


def c23(ck):
    pool = api.pool_of_docs(ck, ck.q(4, 12))
    jobs = []
    # every line of reading and writing broken off, then one operation more
    hists = histories(ck, "cut", plan_of(docs=2, ops=["read", "write"], insts=["own"], cuts=CUTS, broken=1, len=2))
    first = {}
    for h in hists:
        e = h[1][0]
        if e["cut"] and e["a"].get("d", 1) == 1:
            first.setdefault(("read" if e["op"] == "read" else "write", e["a"]["f"]), []).append(h)
    c = Chooser(ck.seed)
    docs = {t: [api.Source([c.pick(pool[t], t, k, "d")], "plain", (ck.seed, t, k)) for k in range(ck.q(1, 4))] for t in sorted(pool)}
    table = known([("", [dict(cut=1)], [s], 0) for v in docs.values() for s in v])
    n = 0
    for t, sources in docs.items():
        for s in sources:
            for (what, f), hs in first.items():
                steps = len(table[("cut", what, s.name, f)])
                n += steps
                for label, hist in hs:
                    for k in range(-(-(steps - hist[0]["cut"] + 1) // CUTS)):
                        if ck.thorough or c.chance(70, label, s.name, k):
                            o = c.pick(sorted(pool), label, s.name, k)
                            jobs.append((label, hist, [s, api.Source([c.pick(pool[o], label, k, "o")], "plain", (ck.seed, o))], k))
    ck.count("places to break off", n)
    jobs += with_docs(ck, histories(ck, "sim", plan_of(docs=3, handles=3, insts=["ndm", "own", "fresh"], places=["a", "b", "d/c"], cuts=8, broken=4,
                                                       ops=["read", "read", "write", "load", "save", "put", "read", "write"], len=12),
                                    num=ck.q(600, 6000)), pool, 3, profiles=("plain",))
    replay(ck, jobs)
