"""Behaviours of the composer (Generate.tla) replayed into the readers and writers."""
import json
import os
import shutil
import tempfile
import time
from decimal import Decimal

from . import engine, kvn, objects, xmldoc
from .values import Chooser, Valuation

from ccsds_ndm.ndm_io import NDMFileFormats, NdmIo
from ccsds_ndm.ndm_kvn_io import NdmKvnIo
from ccsds_ndm.ndm_xml_io import NdmXmlIo

TYPES = ["aem", "apm", "cdm", "oem", "omm", "opm", "rdm", "tdm"]


# ---- plans ------------------------------------------------------------------------
def job(t="", mode="rnd", **kw):
    j = dict(id="j", t=t, mode=mode, pc=0, pd=0, lit=0, p=50, com=0, int=0, many=2, rows=3, seed=1, unit=0, seg=1, free=0, force=[])
    j.update(kw)
    return j


class Plan:
    def __init__(self):
        self.jobs, self.sweeps, self.windows, self.n = [], [], [], 0

    def name(self):
        self.n += 1
        return "%d" % self.n

    def add(self, t, mode, **kw):
        self.jobs.append(job(t, mode, id=self.name(), **kw))

    def rnd(self, types, count, seed, **kw):
        for t in types:
            for i in range(count):
                self.jobs.append(job(t, "rnd", id=self.name(), seed=seed * 1009 + i * 37 + 11, **kw))

    def sweep(self, over, types, modes, part=1, **kw):
        """part: how many literals, or which part of the pairs"""
        self.sweeps.append(dict(over=over, types=types, modes=modes, part=part, base=job(id=self.name(), **kw)))

    def window(self, types, modes, part, free, **kw):
        """the next `free' choices after every n-th choice point, in every possible way"""
        self.windows.append(dict(over="window", types=types, modes=modes, part=part, base=job(id=self.name(), free=free, **kw)))


def generate(ck, plan):
    """run the specification; returns the paths of the generated messages"""
    out = []
    if plan.jobs or plan.sweeps:
        out += _generate(ck, "Generate", dict(jobs=plan.jobs, sweeps=plan.sweeps))
    if plan.windows:
        out += _generate(ck, "Compose", dict(jobs=[], sweeps=plan.windows))
    return out


def reordered(ck, plan, orders=7):
    """the messages of a plan with the keywords of their blocks in other orders"""
    return _generate(ck, "Order", dict(jobs=plan.jobs, sweeps=plan.sweeps, orders=orders))


def _generate(ck, module, plan):
    d = os.path.join(ck.tmp, "gen%d" % len(os.listdir(ck.tmp)))
    os.makedirs(os.path.join(d, "out"))
    with open(os.path.join(d, "plan.json"), "w") as f:
        json.dump(plan, f)
    t = time.time()
    ck.tlc(module, env=dict(NDM_PLAN=os.path.join(d, "plan.json"), NDM_OUT=os.path.join(d, "out")))
    out = sorted(os.path.join(d, "out", x) for x in os.listdir(os.path.join(d, "out")))
    ck.count("messages", len(out))
    ck.count("generate_s", round(time.time() - t, 2))
    return out


def load(path):
    with open(path) as f:
        d = json.load(f)
    d["path"] = os.path.basename(path)
    return d


def in_file(write):
    d = tempfile.mkdtemp(prefix="ndm-xml-")
    try:
        p = os.path.join(d, "message.xml")
        write(p)
        with open(p, "rb") as f:
            return f.read().decode("utf-8")
    finally:
        shutil.rmtree(d)


WAYS = {
    "XML text": lambda o, kw: NdmXmlIo().to_string(o, **kw),
    "unified text": lambda o, kw: NdmIo().to_string(o, NDMFileFormats.XML, **kw),
    "XML file": lambda o, kw: in_file(lambda p: NdmXmlIo().to_file(o, p, **kw)),
    "unified file": lambda o, kw: in_file(lambda p: NdmIo().to_file(o, NDMFileFormats.XML, p, **kw)),
}


# ---- what the code does with a message ----------------------------------------------
class Trial:
    """One message under one valuation."""

    def __init__(self, doc, profile, seed):
        self.d, self.t = doc, doc["t"]
        self.seed = seed
        self.c = Chooser((seed, doc["path"]))
        self.val = Valuation(profile, (seed, doc["path"]))
        self.bad = []

    def fail(self, what, detail, **extra):
        self.bad.append((what, "%s: %s" % (self.t, detail), dict(message=self.d["path"], job=self.d["job"], **extra)))

    def guard(self, what, fn, *a, **extra):
        try:
            return fn(*a)
        except Exception as e:
            self.fail(what, "%s: %s" % (type(e).__name__, str(e)[:200]), **extra)
            return None

    def facts(self):
        return objects.facts_of(self.d["facts"], self.val)

    def kvn_facts(self):
        return objects.facts_of(self.d["read"], self.val)

    def object(self):
        return objects.build(self.t, self.facts())

    def kvn_object(self):
        return objects.build(self.t, self.kvn_facts())

    def kvn_text(self, layout="plain"):
        return kvn.render(self.d["lines"], self.val, layout, self.c)

    def xml_text(self, variant="plain"):
        return xmldoc.render(self.d["xml"], self.val, variant, self.c)

    def reader(self, fmt):
        """one of the equivalent entry points"""
        own = NdmKvnIo if fmt == "kvn" else NdmXmlIo
        return own().from_string if self.c.chance(50, "io", fmt) else NdmIo().from_string

    def write(self, o, fmt):
        if self.c.chance(50, "wio", fmt):
            return (NdmKvnIo() if fmt == "kvn" else NdmXmlIo()).to_string(o)
        return NdmIo().to_string(o, NDMFileFormats.KVN if fmt == "kvn" else NDMFileFormats.XML)

    def check_object(self, what, o, facts, **extra):
        if o is None:
            return False
        if type(o) is not objects.ROOTS[self.t]:
            self.fail(what, "class %s" % type(o).__name__, **extra)
            return False
        if o.id != objects.IDS[self.t] or o.version != objects.VERSIONS[self.t]:
            self.fail(what, "id %r version %r" % (o.id, o.version), **extra)
            return False
        d = objects.diff(facts, objects.project(o))
        if d:
            self.fail(what, "; ".join(d[:4]), **extra)
        return not d

    # ---- legs: each confronts the code with the specification ----
    def read_kvn(self, layout="plain"):
        text = self.kvn_text(layout)
        o = self.guard("KVN read", self.reader("kvn"), text, text=text)
        self.check_object("KVN read", o, self.kvn_facts(), text=text)
        return o

    def write_kvn(self):
        o = self.object()
        text = self.guard("KVN write", self.write, o, "kvn", facts=self.d["facts"])
        if text is not None:
            d = kvn.compare(text, self.d["lines"], self.val)
            if d:
                self.fail("KVN write", d[0], text=text)
        return text

    def pages(self):
        """comments of several lines: KVN holds them line by line"""
        o = self.object()
        for holder, texts in objects.comment_lists(o):
            holder[:] = self.in_pages(texts)
        text = self.guard("KVN write of long comments", self.write, o, "kvn", facts=self.d["facts"])
        if text is not None:
            d = kvn.compare(text, self.d["lines"], self.val)
            if d:
                self.fail("KVN write of long comments", d[0], text=text)

    def in_pages(self, texts):
        out = []
        for i, x in enumerate(texts):
            if i and x and texts[i - 1] and self.c.chance(60, "page", i, x):  # empty lines at the ends have no meaning
                out[-1] += self.c.pick(["\n", "\n   ", "  \n", "\n\t"], "nl", i) + x
            else:
                out.append(x)
        return [self.c.pick(["", "\n", "\n    ", " "], "head", i) + x + self.c.pick(["", "\n", "\n  ", "  "], "tail", i)
                if "\n" in x else x for i, x in enumerate(out)]

    def read_xml(self, variant="plain"):
        text = self.xml_text(variant)
        o = self.guard("XML read", self.reader("xml"), text, text=text)
        self.check_object("XML read", o, self.facts(), text=text)
        return o

    def write_xml(self):
        o = self.object()
        text = self.guard("XML write", self.write, o, "xml", facts=self.d["facts"])
        if text is not None:
            d = xmldoc.compare(text, self.d["xml"], self.val)
            if d:
                self.fail("XML write", d[0], text=text)
        return text

    def compare_objects(self, what, a, b, **extra):
        """equality of objects; comments between keywords may move to the beginning of a neighbouring block"""
        fa, fb = objects.project(a), objects.project(b)
        if self.d["inter"]:
            d = objects.diff(drop_comments(fa), drop_comments(fb))
            if comments(fa) != comments(fb):
                d.append("comments %r instead of %r" % (comments(fb), comments(fa)))
        else:
            d = objects.diff(fa, fb)
            if not d and not self.has_empty() and a != b:
                d = ["objects differ"]
        if d:
            self.fail(what, "; ".join(d[:4]), **extra)
        return not d

    def rt_kvn(self):
        """object -> text -> object -> text"""
        o = self.kvn_object()
        t1 = self.guard("KVN round trip: write", self.write, o, "kvn")
        if t1 is None:
            return
        o1 = self.guard("KVN round trip: read", self.reader("kvn"), t1, text=t1)
        if o1 is None or not self.compare_objects("KVN round trip: object", o, o1, text=t1):
            return
        t2 = self.guard("KVN round trip: rewrite", self.write, o1, "kvn")
        if t2 is not None and stripped(t2) != stripped(t1):
            self.fail("KVN round trip: text", first_diff(t1, t2), text=t1)

    def rt_text(self):
        """text -> object -> text -> object -> text"""
        text = self.kvn_text(self.c.pick(kvn.LAYOUTS, "rt"))
        o1 = self.guard("KVN text round trip: read", self.reader("kvn"), text, text=text)
        if o1 is None:
            return
        t1 = self.guard("KVN text round trip: write", self.write, o1, "kvn", text=text)
        o2 = t1 and self.guard("KVN text round trip: reread", self.reader("kvn"), t1, text=t1)
        if not t1 or o2 is None or not self.compare_objects("KVN text round trip: object", o1, o2, text=text):
            return
        t2 = self.guard("KVN text round trip: rewrite", self.write, o2, "kvn")
        if t2 is not None and stripped(t2) != stripped(t1):
            self.fail("KVN text round trip: text", first_diff(t1, t2), text=text)

    def rt_xml(self):
        o = self.object()
        t1 = self.guard("XML round trip: write", self.write, o, "xml")
        if t1 is None:
            return
        o1 = self.guard("XML round trip: read", self.reader("xml"), t1, text=t1)
        if o1 is None:
            return
        d = objects.diff(objects.project(o), objects.project(o1))
        if not d and not self.has_empty() and o1 != o:
            d = ["objects differ"]
        if d:
            return self.fail("XML round trip: object", "; ".join(d[:4]), text=t1)
        t2 = self.guard("XML round trip: rewrite", self.write, o1, "xml")
        if t2 is not None and t2 != t1:
            self.fail("XML round trip: text", first_diff(t1, t2), text=t1)

    def locations(self):
        """schema locations appear on the root element when asked for, and nowhere else; all ways of writing agree"""
        o = self.object()
        text = None
        for i in range(4):
            n = self.c.num("loc") + i
            ns = [None, "http://x.org/n b.xsd", None, "u v.xsd"][n % 4]
            nons = [None, None, "http://x.org/a.xsd", "w&\"<.xsd"][n % 4]
            kw, want = {}, {}
            if ns or self.c.chance(50, "null", i):
                kw["schema_location"] = ns
            if ns:
                want["{%s}schemaLocation" % xmldoc.XSI] = ns
            if nons or self.c.chance(50, "null2", i):
                kw["no_namespace_schema_location"] = nons
            if nons:
                want["{%s}noNamespaceSchemaLocation" % xmldoc.XSI] = nons
            how = self.c.pick(sorted(WAYS), "way", i)
            text = self.guard("XML write with locations", WAYS[how], o, kw, how=how, options=kw)
            if text is None:
                return
            d = xmldoc.compare(text, self.d["xml"], self.val, root_attrs=want)
            if d:
                return self.fail("XML write with locations", "%s: %s" % (how, d[0]), text=text, options=kw)
        o1 = self.guard("XML read with locations", self.reader("xml"), text, text=text)
        self.check_object("XML read with locations", o1, self.facts(), text=text)

    def layout_pair(self, layout):
        """two layouts of a document read into equal objects"""
        a, b = self.kvn_text(), self.kvn_text(layout)
        oa = self.guard("layout: read", self.reader("kvn"), a, text=a)
        ob = self.guard("layout %s: read" % layout, self.reader("kvn"), b, text=b)
        if oa is not None and ob is not None and oa != ob:
            d = objects.diff(objects.project(oa), objects.project(ob))
            self.fail("layout %s" % layout, "; ".join(d[:4]) or "objects differ", text=b)

    def has_empty(self):
        return any(self.val(f["v"]) == "" for f in self.d["facts"])

    def cross(self):
        """the same message in both formats, and conversion in both directions"""
        tk, tx = self.kvn_text(), self.xml_text()
        ok = self.guard("cross: KVN read", self.reader("kvn"), tk, text=tk)
        ox = self.guard("cross: XML read", self.reader("xml"), tx, text=tx)
        if ok is None or ox is None:
            return
        fk, fx = objects.project(ok), objects.project(ox)
        rows = self.row_paths()
        fx = {p: ((v, "", a) if p in rows else (v, u, a)) for p, (v, u, a) in fx.items()}
        if self.d["canon"]:
            d = objects.diff(fx, fk)
        else:
            d = objects.diff(*(drop_comments(f) for f in (fx, fk)))
            if comments(fk) != comments(fx):
                d.append("comments %r instead of %r" % (comments(fk), comments(fx)))
        if d:
            return self.fail("cross: KVN and XML read differently", "; ".join(d[:4]), kvn=tk, xml=tx)
        # KVN -> XML -> object
        x2 = self.guard("cross: KVN to XML", self.write, ok, "xml", text=tk)
        ox2 = x2 and self.guard("cross: KVN to XML, read", self.reader("xml"), x2, text=x2)
        if x2 and ox2 is not None:
            d = objects.diff(fk, objects.project(ox2))
            if d:
                return self.fail("cross: KVN to XML", "; ".join(d[:4]), text=x2)
            k3 = self.guard("cross: KVN to XML to KVN", self.write, ox2, "kvn", text=x2)
            ok3 = k3 and self.guard("cross: KVN to XML to KVN, read", self.reader("kvn"), k3, text=k3)
            if ok3 is not None and k3:
                d = objects.diff(fk, objects.project(ok3))
                if d:
                    return self.fail("cross: KVN to XML to KVN", "; ".join(d[:4]), text=k3)
        # XML -> KVN -> object
        k2 = self.guard("cross: XML to KVN", self.write, ox, "kvn", text=tx)
        ok2 = k2 and self.guard("cross: XML to KVN, read", self.reader("kvn"), k2, text=k2)
        if k2 and ok2 is not None:
            f2 = objects.project(ok2)
            d = objects.diff(fx, f2) if self.d["canon"] else objects.diff(drop_comments(fx), drop_comments(f2))
            if d:
                return self.fail("cross: XML to KVN", "; ".join(d[:4]), text=k2)

    def row_paths(self):
        """facts whose unit KVN does not spell out"""
        if not hasattr(self, "_r"):
            u = {f["p"]: f["u"] for f in self.d["read"]}
            self._r = {f["p"] for f in self.d["facts"] if f["u"] and u.get(f["p"]) == ""}
        return self._r


def stripped(text):
    """lines of a text without blank lines (they have no meaning in KVN), numbers by value"""
    return [[number(w) for w in x.split()] for x in text.split("\n") if x.strip()]


def number(word):
    if not word[-1].isdigit() or word[0] not in "+-.0123456789":
        return word
    try:
        return Decimal(word)
    except ArithmeticError:
        return word


def drop_comments(f):
    return {p: v for p, v in f.items() if not p.split("/")[-1].startswith("comment[")}


def comments(f):
    return [v[0][1] for p, v in f.items() if p.split("/")[-1].startswith("comment[")]


def first_diff(a, b):
    for x, y in zip(a.split("\n"), b.split("\n")):
        if x != y:
            return "%r then %r" % (x, y)
    return "%d then %d lines" % (a.count("\n"), b.count("\n"))


INTER = {"read_kvn", "layout_pair", "rt_kvn", "rt_text"}
LEGS_KVN = {"read_kvn", "write_kvn", "pages", "rt_kvn", "rt_text", "cross", "layout_pair"}


def trial(args):
    """run legs of one message; returns (path, number of legs, failures)"""
    path, legs, profiles, seed = args
    d = load(path)
    n, bad = 0, []
    for profile in profiles:
        for leg in legs:
            name, *arg = leg if isinstance(leg, (tuple, list)) else (leg,)
            if name in LEGS_KVN and not d["kvn"]:
                continue
            if d["inter"] and name not in INTER:
                continue
            tr = Trial(d, profile, seed)
            if arg and arg[0] == "*":
                arg = [tr.c.pick(kvn.LAYOUTS if name == "read_kvn" else xmldoc.VARIANTS, "layout")]
            n += 1
            try:
                with engine.limit(20 + len(d["facts"]) // 50):
                    getattr(tr, name)(*arg)
            except (engine.Unbuildable, engine.Endless) as e:
                tr.fail("message classes" if isinstance(e, engine.Unbuildable) else "no end", str(e))
            except Exception as e:  # machinery, not a verdict
                raise RuntimeError("%s on %s: %r" % (name, path, e)) from e
            for what, detail, rep in tr.bad:
                rep.update(profile=profile, leg=[name, *arg], seed=seed)
                bad.append((what, detail, rep))
    return path, n, bad


def replay(ck, paths, legs, profiles):
    t = time.time()
    for path, n, bad in engine.parallel(trial, [(p, legs, profiles, ck.seed) for p in paths]):
        ck.traces += n
        for what, detail, rep in bad:
            ck.violation(what, detail, rep)
    ck.count("replay_s", round(time.time() - t, 2))
    if paths and len(ck.samples) < 3:
        ck.samples.append(sample(paths[len(paths) // 2]))


def sample(path):
    d = load(path)
    tr = Trial(d, "plain", 1)
    return dict(job=d["job"], kvn=tr.kvn_text().split("\n")[:25], facts=len(d["facts"]), lines=len(d["lines"]))
