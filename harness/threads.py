"""Schedules of Concurrent.tla replayed with threads (C21).

The threads run one at a time.  A thread gives its turn back after a given number of
steps (lines of the library, calls in the library and in its XML binding), so that a
schedule of the specification is followed exactly and can be replayed.
"""
import json
import multiprocessing as mp
import os
import queue
import shutil
import sys
import tempfile
import threading
import time

from . import api, engine, messages as m, objects, repo
from .values import Chooser

import xsdata
from ccsds_ndm.ndm_io import NdmIo
from ccsds_ndm.ndm_kvn_io import NdmKvnIo
from ccsds_ndm.ndm_xml_io import NdmXmlIo

LIBRARY = os.path.join(os.path.realpath(repo.REPO), "ccsds_ndm") + os.sep
BINDING = os.path.dirname(os.path.realpath(xsdata.__file__)) + os.sep
PATIENCE = 2, 0.2  # s without a step: the thread waits for another one (a lock); the second time on
BUDGET = 420  # s for the schedules of a quick run


class Lane(threading.Thread):
    """one client"""

    def __init__(self, fn, cuts):
        super().__init__(daemon=True)
        self.fn, self.cuts = fn, list(cuts)
        self.go, self.back = threading.Semaphore(0), queue.Queue()
        self.steps, self.free, self.out = 0, False, None
        self.files = {}

    def run(self):
        self.go.acquire()
        sys.settrace(self.enter)
        try:
            self.out = ("value", self.fn())
        except Exception as e:
            self.out = ("error", e)
        finally:
            sys.settrace(None)
            self.back.put("done")

    def enter(self, frame, event, arg):
        f = frame.f_code.co_filename
        kind = self.files.get(f)
        if kind is None:
            r = os.path.realpath(f)
            kind = self.files[f] = 2 if r.startswith(LIBRARY) else 1 if r.startswith(BINDING) else 0
        if kind:
            self.step()
            return self.line if kind == 2 else None
        return None

    def line(self, frame, event, arg):
        if event == "line":
            self.step()
        return self.line

    def step(self):
        self.steps += 1
        if self.cuts and self.steps >= self.cuts[0]:
            self.cuts.pop(0)
            if not self.free:
                self.back.put("pause")
                self.go.acquire()


def turn(lane, patience):
    """wait until the lane gives its turn back; None if it waits for something itself"""
    while True:
        steps = lane.steps
        try:
            return lane.back.get(timeout=patience)
        except queue.Empty:
            if lane.steps == steps:
                return None


def follow(lanes, sched, patience):
    """run the lanes in the order of the schedule; False if it had to be left"""
    for lane in lanes:
        lane.start()
    over = set()
    strict = True
    for c in sched:
        if c in over:
            continue
        lanes[c].go.release()
        what = turn(lanes[c], patience)
        if what is None:
            strict = False
            break
        if what == "done":
            over.add(c)
    for lane in lanes:
        lane.free = True
        lane.go.release()
        lane.go.release()
    for lane in lanes:
        lane.join(30)
    return strict and not any(lane.is_alive() for lane in lanes)


# ---- operations ---------------------------------------------------------------------
class Op:
    """one operation on one document, with what it must give"""

    def __init__(self, kind, fmt, how, src, opt=0, bad=0):
        self.kind, self.fmt, self.how, self.src, self.opt, self.bad = kind, fmt, how, src, opt, bad
        self.name = "%s %s (%s) of %s" % (kind, fmt, how, src.name) + (" opt %d" % opt if opt else "") + (" bad %d" % bad if bad else "")
        self.term = api.Term(src, ())

    @property
    def key(self):
        return self.term.key + (self.fmt, self.opt)

    def prepare(self, tmp, shared, n):
        """what the thread will do; everything else is made now"""
        io = shared["ndm"] if self.how == "shared" else NdmIo() if self.how == "ndm" else NdmKvnIo() if self.fmt == "kvn" else NdmXmlIo()
        if self.kind == "read":
            text = self.src.text(self.fmt)
            if self.how in ("path", "rel"):
                p = place(tmp, "in%d" % n)
                with open(p, "wb") as f:
                    f.write(text.encode("utf-8"))
                if self.how == "rel":
                    p = os.path.relpath(p, tmp)
                return lambda: io.from_path(p)
            return lambda: io.from_string(text)
        if self.kind == "bad":
            text = api.BAD[self.bad](self.src)
            return lambda: NdmIo().from_string(text)
        o = shared["objects"].setdefault(self.src.name, self.src.object())
        shared["exact"].setdefault(self.src.name, repr(o))
        kw = api.OPTIONS[self.opt] if self.fmt == "xml" else {}
        if self.kind == "write":
            return (lambda: io.to_string(o, api.FMT[self.fmt], **kw)) if isinstance(io, NdmIo) else (lambda: io.to_string(o, **kw))
        p = place(tmp, "out%d" % n)
        if self.how == "ndm":
            p = os.path.relpath(p, tmp)

        def save():
            if isinstance(io, NdmIo):
                io.to_file(o, api.FMT[self.fmt], p, **kw)
            else:
                io.to_file(o, p, **kw)
            with open(p, "rb") as f:
                return f.read().decode("utf-8")
        return save

    def judge(self, out, texts, facts):
        """what is wrong with the outcome, or None"""
        what, v = out
        if self.kind == "bad":
            return None if what == "error" else "not refused: %s" % type(v).__name__
        if what == "error":
            return "%s: %s" % (type(v).__name__, str(v)[:200])
        if self.kind == "read":
            want = objects.ROOTS[self.src.trials[0].t] if not self.src.combined else api.Ndm
            if type(v) is not want:
                return "class %s" % type(v).__name__
            d = objects.diff(facts[self.term.key], objects.project(v))
            return "; ".join(d[:3]) if d else None
        if not isinstance(v, str):
            return "no text"
        want = texts[self.key]
        if v != want and api.canonical(v) != api.canonical(want):
            return "text differs: %s" % m.first_diff(want, v)
        return None


def place(tmp, name):
    """a file in a directory of its own"""
    d = os.path.join(tmp, name)
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "file")


def length_of(fn):
    """number of steps an operation takes alone"""
    lane = Lane(fn, [])
    lane.free = True
    lane.go.release()
    lane.start()
    lane.join(60)
    return lane.steps


def cut(c, i, last, ends):
    """a step to pause at: anywhere, or near the ends, where instances are set up and files are open"""
    n = c.num("cut", i) % (last - 1)
    near = min(last - 1, 15 if ends else 30)
    return 1 + [n, n, n % near, last - 2 - n % near][(2 if ends else 0) + c.num("where", i) % (2 if ends else 4)]


def perform(args):
    """replay schedules one after the other in this process"""
    batch, ops, texts, seed, tmp, until = args
    d = tempfile.mkdtemp(prefix="c", dir=tmp)
    os.chdir(d)  # where relative paths begin
    facts, steps, bad = {}, {}, []
    n = left = 0
    for cast, sched, label in batch:
        if time.time() > until:
            break
        shared = dict(ndm=NdmIo(), objects={}, exact={})
        used = [ops[i] for i in cast]
        lanes = []
        for k, op in enumerate(used):
            if op.kind == "read" and op.term.key not in facts:
                facts[op.term.key] = op.term.facts()
            if cast[k] not in steps:
                steps[cast[k]] = length_of(op.prepare(d, dict(ndm=NdmIo(), objects={}, exact={}), 99))
            c = Chooser((seed, label, k))
            last = max(2, steps[cast[k]])
            cuts = sorted(cut(c, i, last, label[:4] == "ends") for i in range(sched.count(k + 1) - 1))
            lanes.append(Lane(op.prepare(d, shared, k), cuts))
        n += 1
        if not follow(lanes, [x - 1 for x in sched], PATIENCE[left > 0]):
            left += 1
        for op, lane in zip(used, lanes):
            why = "not finished" if lane.out is None else op.judge(lane.out, texts, facts)
            if why:
                bad.append((op.name, why, dict(cast=[o.name for o in used], schedule=sched, cuts=label)))
        for name, o in shared["objects"].items():
            if repr(o) != shared["exact"][name]:
                bad.append(("object of " + name, "changed by writing it: %r, was %r" % api.change(repr(o), shared["exact"][name]),
                            dict(cast=[o.name for o in used], schedule=sched, cuts=label)))
        if len(bad) > 3:
            break
    os.chdir("/")
    shutil.rmtree(d, ignore_errors=True)
    return n, left, bad[:3]


# ---- driver ---------------------------------------------------------------------------
def schedules(ck, name, casts, clients, slices, switches):
    d = os.path.join(ck.tmp, "con-" + name)
    os.mkdir(d)
    with open(d + ".json", "w") as f:
        json.dump(dict(clients=clients, slices=slices, switches=switches, shared=False, export=True, casts=casts), f)
    ck.tlc("Concurrent", env=dict(CON_PLAN=d + ".json", CON_OUT=d), workers=1)
    out = []
    for x in sorted(os.listdir(d), key=lambda x: int(x.split(".")[0])):
        with open(os.path.join(d, x)) as f:
            s = json.load(f)
        out.append(([i - 1 for i in s["cast"]], s["sched"], "%s/%s" % (name, x)))
    return out


def common_memory_is_noticed(ck, clients, slices, switches):
    """the specification with a common memory breaks the property (so the schedules can tell)"""
    p = os.path.join(ck.tmp, "con-shared.json")
    with open(p, "w") as f:
        json.dump(dict(clients=clients, slices=slices, switches=switches, shared=True, export=False, casts=[list(range(1, clients + 1))]), f)
    from . import tlc
    r = tlc.run("Concurrent", env=dict(CON_PLAN=p, CON_OUT=ck.tmp), workers=1)
    if r.violated != "NoInterference":
        raise tlc.MachineryError("a common memory goes unnoticed: %s" % r.out[-1500:])


def operations(ck, pool, count):
    """documents and the operations on them"""
    c = Chooser((ck.seed, "threads"))
    ops = []
    for i in range(count):
        t = m.TYPES[i % len(m.TYPES)]
        prof = c.pick(["plain", "spell"], i, "p")
        doc = c.pick(pool[t], i, "d")
        src = api.Source([doc], prof, (ck.seed, doc["path"]))
        ops += [Op("read", "kvn", c.pick(["own", "ndm", "shared", "path", "rel"], i, 1), src),
                Op("read", "xml", c.pick(["own", "ndm", "shared", "path", "rel"], i, 2), src),
                Op("write", "kvn", c.pick(["own", "ndm", "shared"], i, 3), src),
                Op("write", "xml", c.pick(["own", "ndm", "shared"], i, 4), src, opt=c.num(i, 5) % 4),
                Op("save", c.pick(["kvn", "xml"], i, 6), c.pick(["own", "ndm"], i, 7), src)]
        if i % 3 == 0:
            ops.append(Op("bad", "xml", "ndm", src, bad=1 + c.num(i, 8) % 5))
    both = api.Source([c.pick(pool[t], "both", t) for t in ("omm", "oem")], "plain", (ck.seed, "both"))
    ops += [Op("read", "xml", "shared", both), Op("write", "xml", "own", both)]
    return ops


def casts_of(ck, ops, clients, count):
    """which operations meet: mostly the same kind on documents of one type, otherwise any"""
    c = Chooser((ck.seed, "casts", clients))
    out = []
    for n in range(count):
        first = c.num(n, "first") % len(ops)
        near = [i for i, o in enumerate(ops) if i != first and o.fmt == ops[first].fmt and (
            o.kind == ops[first].kind and (o.src.trials[0].t == ops[first].src.trials[0].t or c.chance(30, n, i)) or o.src is ops[first].src)]
        cast = [first + 1]
        for k in range(1, clients):
            rest = near if near and c.chance(70, n, k) else range(len(ops))
            cast.append(c.pick(list(rest), n, k, "other") + 1)
        if cast not in out:
            out.append(cast)
    return out


def c21(ck):
    pool = api.pool_of_docs(ck, ck.q(3, 10))
    ops = operations(ck, pool, ck.q(16, 48))
    texts = {}
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as p:
        texts.update(p.map(api.text_of, [(o.key, o.term, o.fmt, o.opt) for o in ops if o.kind in ("write", "save")], chunksize=1))
    common_memory_is_noticed(ck, 2, 3, 3)
    jobs = schedules(ck, "two", casts_of(ck, ops, 2, ck.q(60, 400)), 2, 4, ck.q(4, 7))
    files = [i + 1 for i, o in enumerate(ops) if o.how in ("path", "rel") or o.kind == "save"]
    c = Chooser((ck.seed, "files"))
    jobs += schedules(ck, "ends", [[c.pick(files, i, 1), c.pick(files, i, 2)] for i in range(ck.q(60, 300))], 2, 3, 4)
    jobs += schedules(ck, "three", casts_of(ck, ops, 3, ck.q(10, 60)), 3, 3, ck.q(4, 6))
    ck.count("schedules", len(jobs))
    ck.samples.append(dict(operations=[ops[i].name for i in jobs[0][0]], schedule=jobs[0][1]))
    until = time.time() + ck.q(BUDGET, 20 * BUDGET)
    per = max(10, min(60, len(jobs) // 32))
    with mp.get_context("fork").Pool(8, maxtasksperchild=4) as p:
        for n, left, bad in p.imap_unordered(perform, [(jobs[i:i + per], ops, texts, ck.seed, ck.tmp, until) for i in range(0, len(jobs), per)]):
            ck.traces += n
            ck.count("schedules_left", left)
            for what, detail, rep in bad:
                ck.violation(what, detail, rep)
