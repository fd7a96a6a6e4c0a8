"""Histories of NdmApi.tla replayed against the library (C15, C16, C17).

Run as a program (python -m harness.api JOB OUT) it replays histories in the process
it is started in; that is how other locales are tried.
"""
import copy
import dataclasses
import json
import multiprocessing as mp
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile
from decimal import Decimal
from pathlib import Path

from . import engine, messages as m, objects, xmldoc
from .values import Chooser

from ccsds_ndm.models.ndmxml2 import Ndm
from ccsds_ndm.ndm_io import NDMFileFormats, NdmIo
from ccsds_ndm.ndm_kvn_io import NdmKvnIo
from ccsds_ndm.ndm_xml_io import NdmXmlIo

FMT = {"kvn": NDMFileFormats.KVN, "xml": NDMFileFormats.XML}
OPTIONS = [{}, dict(schema_location="urn:a http://x.org/a.xsd"), dict(no_namespace_schema_location="http://x.org/n.xsd"),
           dict(schema_location="b c", no_namespace_schema_location="d e")]


# ---- contents -----------------------------------------------------------------------
class Source:
    """a document: one composed message or several"""

    def __init__(self, docs, profile, seed):
        self.trials = [m.Trial(d, profile, (seed, i)) for i, d in enumerate(docs)]
        self.name = "+".join(d["path"] for d in docs) + ":" + profile
        self.combined = len(docs) > 1

    def text(self, fmt):
        if not self.combined:
            return self.trials[0].kvn_text() if fmt == "kvn" else self.trials[0].xml_text()
        return "<ndm>\n<MESSAGE_ID>all</MESSAGE_ID>\n%s</ndm>\n" % "".join(
            xmldoc.render(t.d["xml"], t.val, "plain", t.c, decl=False) for t in self.trials)

    def object(self):
        if not self.combined:
            return self.trials[0].object()
        o = Ndm(message_id="all")
        for t in self.trials:
            getattr(o, t.t).append(t.object())
        return o


def walk(o):
    """all (owner, field name, value) below a message object, in order"""
    for f in dataclasses.fields(o):
        v = getattr(o, f.name)
        yield o, f.name, v
        for x in v if isinstance(v, list) else [v]:
            if dataclasses.is_dataclass(x):
                yield from walk(x)


def mutate(o, k):
    """change an object in place"""
    if k == 1:
        owner, name = next((a, n) for a, n, v in walk(o) if isinstance(v, str) and n == "originator")
        setattr(owner, name, "CHANGED %d" % len(getattr(owner, name)))
    elif k == 2:
        owner = next(v for a, n, v in walk(o) if n == "header")
        owner.comment.append("added")
    elif k == 3:
        found = [(a, n) for a, n, v in walk(o) if isinstance(v, Decimal)]
        if found:
            owner, name = found[-1]
            setattr(owner, name, getattr(owner, name) + Decimal("0.5"))
    elif k == 4:
        found = [v for a, n, v in walk(o) if isinstance(v, list) and len(v) > 1 and n not in ("segment", "comment")]
        if found:
            found[-1].pop()
    elif k == 5:
        found = [v for a, n, v in walk(o) if isinstance(v, list) and v and n not in ("segment", "comment", "user_defined") and dataclasses.is_dataclass(v[0])]
        if found:
            found[0].reverse()
    elif k == 6:  # a user-defined parameter whose value was never set
        found = [v for a, n, v in walk(o) if n == "user_defined" and v]
        if found:
            found[0][-1].value = None
    elif k == 7:  # one more of something repeatable
        found = [v for a, n, v in walk(o) if isinstance(v, list) and v and n not in ("segment", "comment") and dataclasses.is_dataclass(v[0])]
        if found:
            found[-1].append(copy.deepcopy(found[-1][0]))
    elif k in (8, 9):  # a number somewhere
        found = leaves(o)
        if found:
            owner, name = found[len(found) * (k - 7) // 3]
            setattr(owner, name, getattr(owner, name) + Decimal("0.25"))
    elif k == 10:  # a text somewhere
        found = [(a, n) for a, n, v in walk(o) if isinstance(v, str) and n in ("object_name", "parameter", "ref_frame", "center_name", "participant_1", "time_system", "creation_date")]
        if found:
            owner, name = found[-1]
            setattr(owner, name, "CHANGED%d" % len(getattr(owner, name)))
    elif k == 11:  # all comments
        for a, n, v in list(walk(o)):
            if n == "comment" and isinstance(v, list):
                v.insert(0, "first")


def leaves(o):
    return [(a, n) for a, n, v in walk(o) if isinstance(v, Decimal)]


def parts(o):
    """the mutable parts of a message object: what a change in place could reach"""
    yield o
    for a, n, v in walk(o):
        if isinstance(v, list):
            yield v
            yield from (x for x in v if dataclasses.is_dataclass(x) or isinstance(x, list))
        elif dataclasses.is_dataclass(v):
            yield v


class Term:
    """what an object holds: a document and the changes made to it"""

    def __init__(self, source, muts):
        self.source, self.muts = source, tuple(muts)
        self.key = (source.name,) + self.muts

    def object(self):
        o = self.source.object()
        for k in self.muts:
            mutate(o, k)
        return o

    def facts(self):
        return objects.project(self.object())


def text_of(key_term):
    """the text of a term, made in an untouched process"""
    key, term, fmt, opt = key_term
    try:
        with engine.limit():
            if fmt == "kvn":
                return key, NdmKvnIo().to_string(term.object())
            return key, NdmXmlIo().to_string(term.object(), **OPTIONS[opt])
    except (Exception, engine.Endless) as e:
        return key, "refused: %r" % e


def canonical(text):
    """a text up to the spelling of its numbers"""
    if text.startswith("<"):
        return re.sub(r">([^<>]+)<", lambda g: ">%s<" % m.number(g.group(1).strip()) if g.group(1).strip() else ">" + g.group(1) + "<", text)
    return m.stripped(text)


# ---- bad inputs ------------------------------------------------------------------------
BAD = {
    1: lambda s: s.text("xml")[: len(s.text("xml")) * 2 // 3].rstrip() + ">",      # not well-formed
    2: lambda s: "CCSDS_XYZ_VERS = 1.0\n" + s.trials[0].kvn_text().split("\n", 1)[1],
    3: lambda s: "[1, 2]",
    4: lambda s: "",
    5: lambda s: s.text("xml").replace("<header>", "<header><UNKNOWN>1</UNKNOWN>", 1),
    # refused or not, these must leave nothing behind
    6: lambda s: "\n".join(s.trials[0].kvn_text().split("\n")[:9]) + "\nMETA_START\nCOMMENT x\nX = not a number [km]\n1 2 3",
    7: lambda s: s.trials[0].kvn_text().replace("=", " "),
    8: lambda s: s.trials[0].kvn_text().replace("CREATION_DATE", "COMMENT left over\nCREATION_DATE", 1).replace("STOP", "STOPP"),
}
SURE = {1, 2, 3, 4, 5}
TIME = 1700000000


class Player:
    """replays one history"""

    def __init__(self, hist, sources, texts, tmp, label):
        self.hist, self.src, self.texts, self.tmp, self.label = hist, sources, texts, tmp, label
        self.even = Chooser((label, "sizes")).pick([False, True], "even")
        self.insts = dict(ndm=NdmIo(), kvn=NdmKvnIo(), xml=NdmXmlIo())
        self.obj, self.term, self.exact = {}, {}, {}
        self.bytes = {1: None, 2: b"before \xff", 3: b"x"}
        for x in range(2, 10):
            os.makedirs(os.path.dirname(self.path(x)), exist_ok=True)
        for x, b in list(self.bytes.items()):
            p = self.path(x)
            if os.path.exists(p):
                os.remove(p)
            if b is not None:
                self.bytes[x] = self.place(p, b)
        self.known, self.kept = {}, []
        self.bad = []
        self.step = 0
        self.cache = {}

    def path(self, x):
        n = file_name(self.label, x)
        return os.path.join(self.tmp, n) if x == 1 else os.path.join(self.tmp, "dir %s" % x, n)

    def place(self, p, b):
        """a file put by somebody else; nothing but the bytes tells it from another one: all times, and in half of the histories
        the sizes, are equal (blank lines at the end do not count)"""
        if self.even and len(b) > 3:
            b += b"\n" + b" " * (-len(b) % 16384)
        with open(p, "wb") as f:
            f.write(b)
        os.utime(p, (TIME, TIME))
        return b

    def kind(self, p, pk):
        return {"str": p, "Path": Path(p), "rel": os.path.relpath(p, self.tmp), "like": Like(p)}[pk]

    def fail(self, detail):
        e = self.hist[self.step]
        self.bad.append(("step %d %s(%s)" % (self.step + 1, e["op"], ", ".join("%s=%s" % i for i in e["a"].items())), detail,
                         dict(history=self.hist[: self.step + 1], docs=[s.name for s in self.src], label=self.label)))

    def io(self, i, fmt):
        if i == "ndm":
            return self.insts["ndm"]
        if i == "fresh":
            return NdmIo()
        if i == "own":
            return self.insts[fmt]
        return NdmKvnIo() if fmt == "kvn" else NdmXmlIo()

    def expected(self, c):
        t = Term(self.src[c["d"] - 1], c["m"])
        if t.key not in self.cache:
            self.cache[t.key] = t.facts()
        return t, self.cache[t.key]

    def check_object(self, o, c, what):
        term, facts = self.expected(c)
        want = Ndm if term.source.combined else objects.ROOTS[term.source.trials[0].t]
        if type(o) is not want:
            self.fail("%s: class %s instead of %s" % (what, type(o).__name__, want.__name__))
            return False
        d = objects.diff(facts, objects.project(o))
        if d:
            self.fail("%s: %s" % (what, "; ".join(d[:3])))
        return not d

    def keep(self, o, r, h):
        """an object just read: as expected, and no part of it is part of another one"""
        if not self.check_object(o, r, "result"):
            return
        self.obj[h], self.term[h] = o, r
        self.exact.pop(h, None)
        for x in parts(o):
            if id(x) in self.known:
                return self.fail("a %s of the object read is also part of an object read in step %d" % (type(x).__name__, self.known[id(x)] + 1))
            self.known[id(x)] = self.step
        self.kept.append(list(parts(o)))  # nothing is freed, so that no id is used twice

    def check_text(self, text, r):
        want = self.texts[self.key(r)]
        if text != want and canonical(text) != canonical(want):
            self.fail("text differs: %s" % m.first_diff(want, text))

    def key(self, r):
        return self.expected(r["c"])[0].key + (r["f"], r["o"])

    def state(self):
        """nothing but the target of the last step has changed"""
        for h, o in self.obj.items():
            if not self.check_object(o, self.term[h], "object %d" % h):
                return False
            if self.exact.setdefault(h, repr(o)) != repr(o):
                self.fail("object %d is %s, was %s" % ((h,) + change(repr(o), self.exact[h])))
                return False
        for x, b in self.bytes.items():
            p = self.path(x)
            now = None
            if os.path.exists(p):
                with open(p, "rb") as f:
                    now = f.read()
            if now != b:
                self.fail("file %d holds %r instead of %r" % (x, now and now[:60], b and b[:60]))
                return False
        return True

    def run(self):
        for self.step, e in enumerate(self.hist):
            n = len(self.bad)
            try:
                with engine.limit():
                    getattr(self, "do_" + e["op"])(e["r"], **e["a"])
            except (Exception, engine.Endless) as ex:
                self.fail("%s: %s" % (type(ex).__name__, str(ex)[:200]))
            if len(self.bad) > n or not self.state():
                break
        return self.bad[:1]

    # ---- operations ----
    def from_text(self, io, e, text, pk="str"):
        if e == "bytes" and hasattr(io, "from_bytes"):
            return io.from_bytes(text.encode("utf-8"))
        if e == "path":
            p = os.path.join(self.tmp, "source", file_name(self.label, "source"))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            self.place(p, text.encode("utf-8"))
            return io.from_path(self.kind(p, pk))
        return io.from_string(text)

    def do_read(self, r, i, e, d, f, h):
        o = self.from_text(self.io(i, f), e, self.src[d - 1].text(f), ["str", "Path"][self.step % 2])
        self.keep(o, r, h)

    def do_put(self, r, x, d, f, nl):
        b = self.src[d - 1].text(f).replace("\n", "\r\n" if nl == "crlf" else "\n").encode("utf-8")
        self.bytes[x] = self.place(self.path(x), b)

    def do_load(self, r, i, e, p, x, h, f):
        io = self.io(i, f)

        def go():
            if e == "path":
                return io.from_path(self.kind(self.path(x), p))
            with open(self.path(x), "rb") as inp:
                b = inp.read()
            return io.from_bytes(b) if e == "bytes" and hasattr(io, "from_bytes") else io.from_string(b.decode("utf-8"))
        if r["k"] == "refused":
            return self.refused(go)
        o = go()
        self.keep(o, r, h)

    def refused(self, fn, *a):
        try:
            got = fn(*a)
        except Exception:
            return True
        self.fail("not refused: %s" % type(got).__name__)

    def do_readbad(self, r, i, b):
        src = self.src[(b + self.step) % len(self.src)]
        text = BAD[b](src)
        fmt = "xml" if b in (1, 5) else "kvn"
        fn = [self.io(i, fmt).from_string, lambda t: self.from_text(self.io(i, fmt), "path", t)][self.step % 2]
        if b in SURE:
            return self.refused(fn, text)
        try:
            fn(text)
        except Exception:
            pass

    def render(self, io, o, f, opt):
        if isinstance(io, NdmIo):
            return io.to_string(o, FMT[f], **(OPTIONS[opt] if f == "xml" else {}))
        return io.to_string(o, **OPTIONS[opt])

    def do_write(self, r, i, f, o, h):
        text = self.render(self.io(i, f), self.obj[h], f, o)
        self.check_text(text, r)
        if self.render(self.io(i, f), self.obj[h], f, o) != text:
            self.fail("written again, the text differs")

    def do_save(self, r, i, p, f, o, h, x):
        io, path = self.io(i, f), self.kind(self.path(x), p)
        if isinstance(io, NdmIo):
            io.to_file(self.obj[h], FMT[f], path, **(OPTIONS[o] if f == "xml" else {}))
        else:
            io.to_file(self.obj[h], path, **OPTIONS[o])
        with open(self.path(x), "rb") as inp:
            b = inp.read()
        os.utime(self.path(x), (TIME, TIME))
        text = self.render(self.io("fresh", f), self.obj[h], f, o)
        if b != text.encode("utf-8"):
            self.fail("file %r instead of the text returned" % m.first_diff(text, b.decode("utf-8", "replace")))
        self.check_text(b.decode("utf-8"), r)
        self.bytes[x] = b

    def do_refuse(self, r, i, how, h, x):
        p = self.path(x)
        o = self.obj.get(h)
        if how == "combined":
            io = self.io(i, "kvn")
            fn = (lambda: io.to_file(o, FMT["kvn"], p)) if isinstance(io, NdmIo) else (lambda: io.to_file(o, p))
        elif how == "text":
            f = ["kvn", "xml"][self.step % 2]
            io = self.io(i, f)
            odd = copy.deepcopy(o)
            next(v for a, n, v in walk(odd) if n == "header").originator = "half a character \ud83d"
            fn = (lambda: io.to_file(odd, FMT[f], p)) if isinstance(io, NdmIo) else (lambda: io.to_file(odd, p))
        elif how == "nothing":
            f = ["kvn", "xml"][self.step % 2]
            io = self.io(i, f)
            fn = (lambda: io.to_file(object(), FMT[f], p)) if isinstance(io, NdmIo) else (lambda: io.to_file(object(), p))
        else:
            io = self.insts["ndm"] if i in ("ndm", "own") else NdmIo()
            fmt = NDMFileFormats.JSON if how == "json" else None
            fn = lambda: io.to_file(o, fmt, p)
        self.refused(fn)

    def do_mutate(self, r, h, m):
        mutate(self.obj[h], m)
        self.exact.pop(h, None)
        c = self.term[h]
        self.term[h] = dict(c, m=c["m"] + [m])


def change(a, b):
    """the places where two texts begin to differ"""
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), 0)
    return a[max(0, n - 30):n + 30], b[max(0, n - 30):n + 30]


# nothing in the name of a file says anything about what it holds
FILE_NAMES = ["file.txt", "message.xml", "message.kvn", "m.XML", "m.oem", "m.opm.xml", "x.kvn.xml", "x.xml.kvn", "no suffix", ".hidden", ".xml", "~user.kvn", "-n.kvn",
              "na\u00efve \u03a9.xml", "a[1]*?.kvn", "x.json", "x.gz", "x.zip", "<ndm>.xml", "<a.kvn", "[a].xml", "CCSDS_OPM_VERS = 2.0", "x%41%s{}.xml", "$HOME.kvn", "a\\b.xml",
              "x.", "x ", "x.py", "ndm", "x&y;.xml", "a=b.kvn", "x.bak", "'q' \"r\".kvn", "file:x.xml", "http:x.kvn", "x" * 180 + ".xml"]


def file_name(*label):
    n = Chooser(label).pick(FILE_NAMES, "name")
    try:
        os.fsencode(n)
    except UnicodeError:
        n = "file.txt"
    return n


class Like:
    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


# ---- driver ------------------------------------------------------------------------------
def play(args):
    """replay histories one after the other in this process"""
    batch, texts, tmp = args
    d = tempfile.mkdtemp(prefix="h", dir=tmp)
    os.chdir(d)
    bad = []
    for label, hist, sources in batch:
        bad += Player(hist, sources, texts, d, label).run()
    os.chdir("/")
    shutil.rmtree(d, ignore_errors=True)
    return len(batch), bad[:3]


def terms(jobs):
    out = {}
    for _, hist, sources in jobs:
        for e in hist:
            if e["r"]["k"] == "text":
                t = Term(sources[e["r"]["c"]["d"] - 1], e["r"]["c"]["m"])
                k = t.key + (e["r"]["f"], e["r"]["o"])
                out.setdefault(k, (k, t, e["r"]["f"], e["r"]["o"]))
    return out


def baseline(jobs):
    """texts of all terms, each made in a process of its own"""
    t = list(terms(jobs).values())
    if not t:
        return {}
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        return dict(pool.map(text_of, t, chunksize=1))


def pool_of_docs(ck, count, **kw):
    """messages that both formats express fully, comments in canonical places"""
    p = m.Plan()
    p.rnd(m.TYPES, count, ck.seed, p=45, com=15, many=3, rows=3, unit=1, **kw)
    for t in m.TYPES:
        p.add(t, "max", com=20, many=2, rows=2, unit=1, seed=ck.seed)
    pool = by_type(m.generate(ck, p))
    assert len(pool) == len(m.TYPES), sorted(pool)
    return pool


def by_type(paths):
    pool = {}
    for path in paths:
        d = m.load(path)
        if d["kvn"] and d["canon"] and not d["inter"] and {x["p"]: x["u"] for x in d["facts"]} == {x["p"]: x["u"] for x in d["read"]}:
            pool.setdefault(d["t"], []).append(d)
    return pool


def big_pool(ck):
    """messages far longer than a block of a file or a buffer, with characters of several bytes throughout"""
    p = m.Plan()
    for t, f, n in (("oem", "state_vector", 260), ("tdm", "observation", 400), ("aem", "attitude_state", 200)):
        p.add(t, "rnd", p=70, com=40, many=3, rows=n, unit=1, seed=ck.seed, force=[dict(f=f, c=[n]), dict(f="segment", c=[2])])
    for t in ("omm", "opm", "rdm"):
        p.add(t, "max", com=0, many=200, unit=1, seed=ck.seed, force=[dict(f="user_defined", c=[200])])
    return by_type(m.generate(ck, p))


def relatives(ck):
    """messages of one type that differ in the settings by which their rows are understood, in little else, and in much else"""
    p = m.Plan()
    for a in range(14):  # attitude types, in both spellings
        for k in range(4):
            p.add("aem", "min", com=0, many=1, rows=2, seed=ck.seed, unit=1, force=[
                dict(f="segment", c=[1]), dict(f="attitude_type", c=[a + 1]), dict(f="quaternion_type", c=[(a + k) % 4 + 1]),
                dict(f="euler_rot_seq", c=[(a * 3 + k * 5 + ck.seed) % 12 + 1])])
    for t in m.TYPES:
        p.add(t, "min", com=0, many=1, rows=2, unit=1, seed=ck.seed)
        p.add(t, "max", com=0, many=2, rows=2, unit=1, seed=ck.seed)
        p.rnd([t], 4, ck.seed + 5, p=50, com=0, many=2, rows=2, unit=1)
    return by_type(m.generate(ck, p))


def histories(ck, name, plan, num=0, workers=1, profiles=("plain",), pool=None, same=False):
    """run the specification; every history with its documents"""
    d = os.path.join(ck.tmp, "api-" + name)
    os.mkdir(d)
    with open(d + ".json", "w") as f:
        json.dump(plan, f)
    args = ("-simulate", "num=%d" % num, "-seed", str(ck.seed * 17 + 3), "-depth", str(2 * plan["len"] + 2)) if num else ()
    ck.tlc("NdmApi", env=dict(API_PLAN=d + ".json", API_OUT=d), workers=workers, args=args)
    files = sorted(os.listdir(d), key=lambda x: int(x.split(".")[0]))
    jobs = []
    for x in files:
        with open(os.path.join(d, x)) as f:
            hist = json.load(f)
        c = Chooser((ck.seed, name, x))
        types = sorted(pool)
        t0 = c.pick(types, "t")
        src = []
        for k in range(1, plan["docs"] + 1):
            n = 2 if k in plan["combined"] else 1
            ds = [c.pick(pool[c.pick(types, k, i) if not same or c.chance(40, k, i, "other") else t0], k, i, "d") for i in range(n)]
            src.append(Source(ds, c.pick(profiles, "profile", k), (ck.seed, name, x, k) if n > 1 else (ck.seed, ds[0]["path"])))
            if n > 1:
                src[-1].name += ":%s:%s" % (x, k)
        jobs.append(("%s/%s" % (name, x), hist, src))
    ck.count("histories", len(jobs))
    ck.count("operations", sum(len(j[1]) for j in jobs))
    if len(ck.samples) < 3 and jobs:
        ck.samples.append(dict(history=jobs[len(jobs) // 2][1][:6], documents=[s.name for s in jobs[len(jobs) // 2][2]]))
    return jobs


def some(ck, jobs, percent):
    """a part of the histories in quick runs"""
    c = Chooser(ck.seed)
    return [j for j in jobs if ck.thorough or c.chance(percent, j[0])]


def report(ck, results):
    for n, bad in results:
        ck.traces += n
        for what, detail, rep in bad:
            ck.violation(what, detail, rep)


def replay(ck, jobs, per=25):
    texts = baseline(jobs)
    ck.count("texts", len(texts))
    batches = [(jobs[i:i + per], {k: texts[k] for k in terms(jobs[i:i + per])}, ck.tmp) for i in range(0, len(jobs), per)]
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        report(ck, pool.map(play, batches, chunksize=1))


ENVS = {
    "C": dict(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", PYTHONHASHSEED="1", TZ="America/St_Johns"),
    "POSIX": dict(LC_ALL="POSIX", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", PYTHONIOENCODING="latin-1", PYTHONHASHSEED="2", PYTHONOPTIMIZE="2"),
    "C.UTF-8": dict(LC_ALL="C.UTF-8", PYTHONHASHSEED="3", TZ="Asia/Kathmandu", PYTHONDEVMODE="1"),
    "utf8 mode": dict(LC_ALL="C", PYTHONUTF8="1"),
}


def replay_in(ck, jobs, env, procs=8):
    """the same in processes started with another locale"""
    texts = baseline(jobs)
    ck.count("texts", len(texts))
    per = -(-len(jobs) // procs)
    running = []
    for i in range(0, len(jobs), per):
        part = jobs[i:i + per]
        base = os.path.join(ck.tmp, "env%d-%d" % (len(os.listdir(ck.tmp)), i))
        with open(base + ".in", "wb") as f:
            pickle.dump((part, {k: texts[k] for k in terms(part)}, ck.tmp), f)
        e = {k: v for k, v in os.environ.items() if not k.startswith("LC_") and k not in ("LANG", "PYTHONUTF8")}
        e.update(env)
        running.append((base, subprocess.Popen([sys.executable, "-m", "harness.api", base + ".in", base + ".out"], cwd=engine.ROOT, env=e)))
    for base, p in running:
        if p.wait() != 0:
            raise RuntimeError("harness.api ended with %d" % p.returncode)
        with open(base + ".out", "rb") as f:
            report(ck, [pickle.load(f)])


BASE = dict(docs=2, combined=[], handles=2, files=2, insts=["ndm", "own"], entries=["string"], paths=["str"], opts=1, muts=1, bads=8, sure=5, ops=[], len=2)


def plan_of(**kw):
    p = dict(BASE)
    p.update(kw)
    return p


def c15(ck):
    pool = pool_of_docs(ck, ck.q(6, 20))
    big = big_pool(ck)
    prof = ("plain", "spell", "spell")
    n = ck.q(1, 6)
    every = dict(insts=["ndm", "own", "fresh"], entries=["string", "bytes", "path"], paths=["str", "Path", "rel"], opts=1)
    for k, (env, extra) in enumerate(ENVS.items()):
        # every read and write of one document, then the file read back
        jobs = histories(ck, "file%d" % k, plan_of(docs=1, handles=1, files=1, ops=["read", "put", "load", "save"], len=2, **every),
                         pool=pool, profiles=prof)
        jobs = some(ck, jobs, 30)
        jobs += histories(ck, "sim%d" % k, plan_of(docs=3, combined=[3], handles=2, files=3, ops=["read", "put", "load", "save", "write"], len=8, **every),
                          num=100 * n, pool=pool, profiles=prof)
        jobs += histories(ck, "big%d" % k, plan_of(docs=2, combined=[2], handles=2, files=2, ops=["read", "put", "load", "save", "write"], len=6, **every),
                          num=6 * n, pool=big, profiles=("spell", "plain", "long"))
        # long texts, far beyond the sizes in which files are read and written
        texts = {t: big[t] for t in ("omm", "opm", "rdm")}
        jobs += histories(ck, "long%d" % k, plan_of(docs=1, handles=1, files=1, ops=["read"], len=1, **every), pool=texts, profiles=("long",))
        jobs += histories(ck, "longs%d" % k, plan_of(docs=1, handles=1, files=1, ops=["read", "put", "load", "save"], len=4, **every),
                          num=6 * n, pool=texts, profiles=("long",))
        replay_in(ck, jobs, extra)


def c16(ck):
    pool = pool_of_docs(ck, ck.q(6, 20))
    jobs = histories(ck, "pairs", plan_of(docs=2, handles=1, files=1, insts=["ndm", "own"], opts=2, ops=["read", "readbad", "write"], len=3),
                     pool=pool, profiles=("plain", "equal", "spell"), same=True)
    replay(ck, some(ck, jobs, 25))
    jobs = histories(ck, "sim", plan_of(docs=4, combined=[4], handles=3, files=3, insts=["ndm", "own", "own", "fresh"], opts=3, muts=11,
                                        paths=["str", "rel"], ops=["read", "readbad", "write", "save", "load", "refuse", "mutate"], len=20),
                     num=ck.q(250, 4000), pool=pool, profiles=("plain", "equal", "spell"), same=True)
    replay(ck, jobs, per=10)
    # relatives one after the other
    kin = relatives(ck)
    for t in kin:
        jobs = histories(ck, "kin-" + t, plan_of(docs=8, handles=2, files=1, insts=["ndm", "own"], muts=11, ops=["read", "write", "mutate"], len=24),
                         num=ck.q(24 if t == "aem" else 6, 400), pool={t: kin[t]}, profiles=("plain", "equal"))
        replay(ck, jobs, per=3)
    # long lives
    jobs = histories(ck, "long", plan_of(docs=6, combined=[6], handles=4, files=4, insts=["ndm", "own"], entries=["string", "path", "bytes"], opts=3,
                                         muts=11, paths=["Path", "rel"], ops=["read", "readbad", "write", "save", "load", "refuse", "mutate"], len=150),
                     num=ck.q(8, 60), pool=pool, profiles=("plain", "equal", "spell"))
    replay(ck, jobs, per=1)


def c17(ck):
    pool = pool_of_docs(ck, ck.q(6, 20))
    jobs = histories(ck, "pairs", plan_of(docs=1, handles=2, files=2, insts=["own", "fresh"], opts=0, muts=ck.q(2, 11), ops=["read", "write", "mutate"], len=4),
                     pool=pool, profiles=("plain", "equal"))
    replay(ck, some(ck, jobs, 10))
    jobs = histories(ck, "sim", plan_of(docs=3, combined=[3], handles=3, files=3, insts=["ndm", "own", "fresh"], entries=["string", "path"],
                                        paths=["str", "Path"], opts=1, muts=11, ops=["read", "write", "save", "load", "refuse", "mutate"], len=16),
                     num=ck.q(250, 4000), pool=pool, profiles=("plain", "equal"), same=True)
    replay(ck, jobs, per=10)


if __name__ == "__main__":
    with open(sys.argv[1], "rb") as _f:
        _job = pickle.load(_f)
    with open(sys.argv[2], "wb") as _f:
        pickle.dump(play(_job), _f)
