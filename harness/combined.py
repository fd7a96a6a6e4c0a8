"""Documents of Combined.tla, with composed messages as members, tried against the code (C14)."""
import json
import os
import xml.etree.ElementTree as ET

from . import engine, messages as m, objects, xmldoc
from .values import COMMENTS, TEXTS, Chooser
from xml.sax.saxutils import escape

from ccsds_ndm.models.ndmxml2 import Ndm
from ccsds_ndm.ndm_io import NDMFileFormats, NdmIo
from ccsds_ndm.ndm_kvn_io import NdmKvnIo
from ccsds_ndm.ndm_xml_io import NdmXmlIo

POOL = {}     # type -> list of loaded messages, set before the workers start


def member(t, n, c, seed, label):
    d = c.pick(POOL[t], "member", n)
    return m.Trial(d, c.pick(["plain", "spell", "equal"], "profile", n), (seed, label, n))


class Doc:
    """one combined document"""

    def __init__(self, rec, seed, tmp):
        self.rec, self.tmp = rec, tmp
        self.label = "+".join(x["t"] or x["k"] for x in rec["doc"]) or "empty"
        self.c = Chooser((seed, self.label))
        self.bad = []
        self.n = 0
        self.mem = {x["n"]: member(x["t"], x["n"], self.c, seed, self.label) for x in rec["doc"] if x["k"] == "member"}
        self.types = {x["n"]: x["t"] for x in rec["doc"] if x["k"] == "member"}
        self.id = self.c.pick(TEXTS, "id")
        self.com = {x["n"]: self.c.pick(COMMENTS, "com", x["n"]) for x in rec["doc"] if x["k"] == "comment"}

    def fail(self, what, detail, **extra):
        self.bad.append((what, "%s: %s" % (self.label, detail), dict(doc=self.rec["doc"], text=getattr(self, "text", None), **extra)))

    def render(self):
        variant = self.c.pick(xmldoc.VARIANTS[:-1], "variant")
        out = []
        decl = self.c.chance(50, "decl")
        for i, x in enumerate(self.rec["doc"]):
            if self.c.chance(20, "gap", i):
                out.append(self.c.pick(["\n\n", "<!-- <opm/> -->", "\t", "<?pi?>"], "gapkind", i))
            if x["k"] == "id":
                out.append("<MESSAGE_ID>%s</MESSAGE_ID>" % escape(self.id))
            elif x["k"] == "comment":
                out.append("<COMMENT>%s</COMMENT>" % escape(self.com[x["n"]]))
            else:
                tr = self.mem[x["n"]]
                out.append(xmldoc.render(tr.d["xml"], tr.val, variant, tr.c, decl=False))
        attrs = self.c.pick(["", "", ' xmlns:xsi="%s" xsi:noNamespaceSchemaLocation="a b.xsd"' % xmldoc.XSI], "attrs")
        return (('<?xml version="1.0" encoding="UTF-8"?>\n' if decl else "") + "<ndm%s>" % attrs
                + self.c.pick(["", "\n"], "nl").join([""] + out + [""]) + "</ndm>" + self.c.pick(["", "\n"], "end"))

    def alone(self, n):
        return NdmXmlIo().from_string(self.mem[n].xml_text())

    def reader(self, label):
        return self.c.pick([NdmIo().from_string, NdmXmlIo().from_string, lambda t: NdmIo().from_bytes(t.encode()),
                            lambda t: NdmXmlIo().from_bytes(t.encode())], label)

    def check(self, o, what):
        """whether an object is the one specified"""
        self.n += 1
        r = self.rec["result"]
        if r["kind"] == "member":
            return self.check_member(o, r["n"], what)
        if type(o) is not Ndm:
            return self.fail(what, "class %s instead of Ndm" % type(o).__name__)
        has_id = any(x["k"] == "id" for x in self.rec["doc"])
        if o.message_id != (self.id if has_id else None):
            self.fail(what, "message id %r" % o.message_id)
        com = [self.com[k] for k in self.rec["obj"]["com"]]
        if list(o.comment) != com:
            self.fail(what, "comments %r instead of %r" % (o.comment, com))
        for t in m.TYPES:
            want = self.rec["obj"]["lists"][t]
            got = getattr(o, t)
            if len(got) != len(want):
                self.fail(what, "%d members %s instead of %d" % (len(got), t, len(want)))
                continue
            for g, w in zip(got, want):
                self.check_member(g, w, what)

    def check_member(self, o, n, what):
        tr = self.mem[n]
        tr.bad = []
        if tr.check_object(what, o, tr.facts()) and o != self.alone(n):
            self.fail(what, "member %d differs from the one read alone" % n)
        for _, detail, extra in tr.bad:
            self.fail(what, "member %d %s" % (n, detail), **extra)

    def check_text(self, text, what, attrs=None):
        """whether an XML text is a document of the combined object"""
        self.n += 1
        try:
            root = ET.fromstring(text.encode())
        except ET.ParseError as e:
            return self.fail(what, "not well-formed: %s" % e)
        if root.tag != "ndm" or dict(root.attrib) != (attrs or {}):
            return self.fail(what, "root %s with %r" % (root.tag, dict(root.attrib)))
        kids = list(root)
        head = [(k.tag, k.text) for k in kids if k.tag in ("MESSAGE_ID", "COMMENT")]
        want = [("MESSAGE_ID", self.id)] * any(x["k"] == "id" for x in self.rec["doc"]) + [("COMMENT", self.com[k]) for k in self.rec["obj"]["com"]]
        if head != want or [(k.tag, k.text) for k in kids[:len(head)]] != want:
            return self.fail(what, "header %r instead of %r" % (head, want))
        kids = kids[len(head):]
        if len(kids) != len(self.mem):
            return self.fail(what, "%d members instead of %d" % (len(kids), len(self.mem)))
        for t in m.TYPES:
            els = [k for k in kids if k.tag == t]
            ns = self.rec["obj"]["lists"][t]
            if len(els) != len(ns):
                return self.fail(what, "%d members %s instead of %d" % (len(els), t, len(ns)))
            for el, n in zip(els, ns):
                tr = self.mem[n]
                d = xmldoc._node(el, xmldoc.tree(tr.d["xml"]), tr.val, "", dict(id=objects.IDS[t], version=objects.VERSIONS[t]))
                if d:
                    return self.fail(what, "member %d: %s" % (n, d[0]))

    def build(self):
        o = Ndm()
        if any(x["k"] == "id" for x in self.rec["doc"]):
            o.message_id = self.id
        o.comment = [self.com[k] for k in self.rec["obj"]["com"]]
        for t in m.TYPES:
            setattr(o, t, [self.mem[n].object() for n in self.rec["obj"]["lists"][t]])
        return o

    def run(self):
        self.text = self.render()
        o = self.reader("r1")(self.text)
        self.check(o, "combined read")
        # writing the object that was built, and the one that was read
        built = self.build()
        kw, attrs = {}, {}
        if self.c.chance(30, "loc"):
            kw = dict(no_namespace_schema_location="http://x/a b.xsd")
            attrs = {"{%s}noNamespaceSchemaLocation" % xmldoc.XSI: "http://x/a b.xsd"}
        w = self.c.pick([lambda x: NdmXmlIo().to_string(x, **kw), lambda x: NdmIo().to_string(x, NDMFileFormats.XML, **kw)], "w")
        t1 = w(built)
        self.check_text(t1, "combined write", attrs)
        if type(o) is Ndm:
            t2 = w(o)
            self.check_text(t2, "combined rewrite", attrs)
        o2 = self.reader("r2")(t1)
        self.check(o2, "combined write and read")
        if type(o) is Ndm and not any(self.mem[n].has_empty() for n in self.mem) and o2 != o:
            self.fail("combined write and read", "objects differ")
        self.kvn(built, o)

    def kvn(self, built, o):
        ways = [lambda x: NdmKvnIo().to_string(x), lambda x: NdmIo().to_string(x, NDMFileFormats.KVN)]
        path = os.path.join(self.tmp, "k%d" % os.getpid())

        def tofile(io, *a):
            def f(x):
                with open(path, "w") as out:
                    out.write("before")
                try:
                    io().to_file(x, *a, path)
                except NotImplementedError:
                    with open(path) as inp:
                        if inp.read() != "before":
                            self.fail("combined to KVN", "the refused write changed the file")
                    raise
                with open(path, encoding="utf-8", newline="") as inp:
                    return inp.read()
            return f
        ways += [tofile(NdmKvnIo), tofile(NdmIo, NDMFileFormats.KVN)]
        for i, way in enumerate(ways):
            if self.rec["kvn"] == "any" or (len(self.mem) > 1 and not self.c.chance(40, "kvn", i)):
                continue
            self.n += 1
            if self.rec["kvn"] == "refuse":
                for x in (built, o):
                    try:
                        way(x)
                        self.fail("combined to KVN", "not refused (way %d)" % i)
                    except NotImplementedError:
                        pass
            else:
                n = self.rec["result"]["n"]
                want = NdmKvnIo().to_string(self.mem[n].object())
                for x in (built, o):
                    got = way(x)
                    if got != want:
                        self.fail("single member to KVN", m.first_diff(want, got))


def one(args):
    path, seed, tmp = args
    with open(path) as f:
        rec = json.load(f)
    d = Doc(rec, seed, tmp)
    try:
        with engine.limit(60):
            d.run()
    except (Exception, engine.Endless) as e:
        d.fail("combined", "%s: %s" % (type(e).__name__, str(e)[:200]))
    return d.n, d.bad[:3]


def c14(ck):
    p = m.Plan()
    for t in m.TYPES:
        p.add(t, "min", seed=ck.seed)
        p.add(t, "max", seed=ck.seed, com=30, many=1, rows=2)
    p.rnd(m.TYPES, ck.q(6, 20), ck.seed, p=40, com=20, many=2, rows=2)
    for path in m.generate(ck, p):
        d = m.load(path)
        if d["kvn"]:  # expressible in both formats
            POOL.setdefault(d["t"], []).append(d)
    runs = ck.q([(3, 0, []), (2, 2, [])], [(3, 2, []), (4, 0, [])])
    c = Chooser(ck.seed)
    for k, size in enumerate(ck.q([5, 9, 17, 40], [5, 9, 17, 40, 64, 100, 200])):
        one_type = [c.pick(m.TYPES, "of one", k)]
        for types in [m.TYPES, one_type][: 2 if size < 60 else 1 + k % 2]:
            runs.append((size, ck.q(2, 3), [[c.pick(types, "long", k, i) for i in range(size)]]))
    for n, (members, comments, given) in enumerate(runs):
        d = os.path.join(ck.tmp, "comb%d" % n)
        os.mkdir(d)
        plan = d + ".json"
        with open(plan, "w") as f:
            json.dump(dict(types=m.TYPES, members=members, comments=comments, given=given), f)
        ck.tlc("Combined", env=dict(COMBINED_PLAN=plan, COMBINED_OUT=d))
        paths = sorted(os.path.join(d, x) for x in os.listdir(d))
        ck.count("documents", len(paths))
        for k, bad in engine.parallel(one, [(x, ck.seed, ck.tmp) for x in paths]):
            ck.traces += k
            for what, detail, rep in bad:
                ck.violation(what, detail, rep)
        if len(ck.samples) < 3:
            with open(paths[len(paths) // 2]) as f:
                ck.samples.append(json.load(f))
