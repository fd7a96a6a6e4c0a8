"""Damaged KVN documents of Damage.tla read by the code (C25)."""
import json
import os
import re
from collections import Counter
from decimal import Decimal
from functools import lru_cache

from . import engine, messages as m, objects
from .values import Chooser, Valuation

from ccsds_ndm.ndm_io import NdmIo
from ccsds_ndm.ndm_kvn_io import NdmKvnIo

DOCS = []
KINDS = ["lost", "twice", "last", "first", "exchanged", "end", "begin", "again", "gap", "foreign", "cut", "word lost", "word twice", "half", "joined", "split",
         "equals", "case", "junk", "value", "emptied", "key", "header"]


# ---- text ------------------------------------------------------------------------
def words(ln):
    """the words of a line of the specification"""
    c = ln["c"]
    if c in ("kv", "ver"):
        return [ln["k"], "=", ln["v"]] + (["[%s]" % ln["u"]] if ln["u"] else [])
    if c == "com":
        return ["COMMENT", ln["v"]]
    if c == "obs":
        return [ln["k"], "="] + ln["vs"]
    return ln["vs"] if c == "row" else [ln["k"]]


def spell(w, val):
    if w[:1] == "~":
        s = spell(w[1:], val)
        return s[:(len(s) + 1) // 2]
    i = w.find("$")
    return w if i < 0 else w[:i] + val(w[i:])


def damaged(rec):
    text = list(DOCS[rec["m"] - 1]["lines"])
    for d in rec["d"]:
        text[d["at"] - 1:d["at"] - 1 + d["del"]] = d["ins"]
    return text


def render(text, val):
    return "\n".join(" ".join(spell(w, val) for w in ws) for ws in text) + "\n"


# ---- what a text says -------------------------------------------------------------
class Said:
    """the statements of a text: by keyword, as comments, as words of a line"""

    def __init__(self, text):
        self.by_key, self.comments, self.rows = {}, set(), []
        for raw in text.split("\n"):
            s = raw.strip()
            if s.startswith("COMMENT"):
                v = s[7:].strip()
                self.comments |= {v, v[1:].strip() if v[:1] == "=" else v}
            k, eq, v = (x.strip() for x in s.partition("="))
            if eq:
                self.by_key.setdefault(k, []).append(v)
            row = s.replace("=", " ").split()
            self.rows.append(set(row) | {number(w) for w in row})
        self.words = set().union(*self.rows)

    def keyword(self, keys, value, unit):
        for k in keys:
            for v in self.by_key.get(k, ()):
                head, bracket, rest = v.partition("[")  # what looks like a unit
                if bracket and same(head.strip(), value) and set(unit.split()) <= set(rest.replace("[", "").replace("]", "").split()):
                    return True
                if same(v, value) and not unit:
                    return True
        return False

    def word(self, value):
        return meant(value) in self.words


@lru_cache(None)
def number(w):
    try:
        return Decimal(w)
    except ArithmeticError:
        return w


def meant(value):
    return Decimal(value[1]) if value[0] in ("dec", "int") else value[1]


def same(text, value):
    kind, v = value
    if kind in ("dec", "int"):
        return number(text) == v
    return text == v or (kind == "enum" and text.upper() == str(v).upper())


ROW = re.compile(r"^(.*/(?:state_vector|attitude_state|observation)\[\d+\])/")


def inventions(o, text):
    """what an object holds that the text it was read from does not say"""
    said, out, rows = Said(text), [], {}
    for path, (value, unit, attr) in objects.project(o).items():
        kind, v = value
        if kind in ("blk", "NoneType") or v == "":
            continue
        name = re.sub(r"\[\d+\]$", "", path.split("/")[-1])
        row = ROW.match(path)
        if name == "comment":
            ok = v in said.comments
        elif row:
            ok = said.word(value)
            rows.setdefault(row.group(1), []).append(value)
        elif name == "user_defined":
            ok = said.keyword(["USER_DEFINED_" + attr, attr], value, "")
        elif "/covariance_matrix[" in path:
            ok = said.keyword([name.upper()], value, unit) or name not in ("epoch", "cov_ref_frame") and said.word(value)
        else:
            ok = said.keyword([attr, name.upper()] if attr else [name.upper()], value, unit)
        if not ok:
            out.append("%s = %s is said nowhere" % (path, objects.show((value, unit, attr))))
    # the values of a row stand on one line, and the rows in the order of the lines
    for path, values in rows.items():
        if not any(all(meant(v) in line for v in values) for line in said.rows):
            out.append("%s is put together from several lines" % path)
    return out


# ---- against the code ---------------------------------------------------------------
def outcome(read, text):
    """the object, or the name of the exception"""
    with engine.limit():
        try:
            return read(text), None
        except Exception as e:
            return None, type(e).__name__


def batch(args):
    recs, seed, tmp = args
    bad, n, outs = [], 0, Counter()

    def filed(text):
        p = os.path.join(tmp, "kvn-%d" % os.getpid())
        with open(p, "wb") as f:
            f.write(text.encode("utf-8"))
        return p
    mine = NdmKvnIo()  # has seen all the others before
    for rec in recs:
        doc = DOCS[rec["m"] - 1]
        val = Valuation("plain", (seed, doc["path"]))
        c = Chooser((seed, rec["m"], json.dumps(rec["d"])))
        text = render(damaged(rec), val)
        where = "%s, %s" % (doc["t"], ", then ".join("%s at line %d" % (d["kind"], d["i"]) for d in rec["d"]))
        ways = [("NdmKvnIo.from_string", NdmKvnIo().from_string), ("NdmIo.from_string", NdmIo().from_string),
                ("NdmIo.from_bytes", lambda t: NdmIo().from_bytes(t.encode())),
                ("NdmKvnIo.from_path", lambda t: NdmKvnIo().from_path(filed(t))), ("NdmIo.from_path", lambda t: NdmIo().from_path(filed(t)))]
        name, other = c.pick(ways, "way")
        n += 1
        try:
            o, e = outcome(mine.from_string, text)
            outs["object" if e is None else "exception"] += 1
            if e is None and type(o) is not objects.ROOTS[doc["t"]]:
                bad.append(("damaged KVN read", "%s: read as %s" % (where, type(o).__name__), dict(rec=rec, text=text)))
                continue
            if e is None:
                if (o.id, o.version) != (objects.IDS[doc["t"]], objects.VERSIONS[doc["t"]]):
                    bad.append(("damaged KVN read", "%s: id %r, version %r" % (where, o.id, o.version), dict(rec=rec, text=text)))
                inv = inventions(o, text)
                if inv:
                    bad.append(("damaged KVN read", "%s: %s" % (where, "; ".join(inv[:3])), dict(rec=rec, text=text)))
            # the outcome is the same again, whichever way it is read
            for what, way in [("once more", mine.from_string), (name, other)][c.chance(70, "once"):]:
                o2, e2 = outcome(way, text)
                if e2 != e or o2 != o:
                    bad.append(("damaged KVN read", "%s: %s: %s after %s" % (where, what, e2 or "object", e or "object"), dict(rec=rec, text=text)))
            # and nothing is left of it in the reader
            if c.chance(25, "after"):
                fine = render(doc["lines"], val)
                o3, e3 = outcome(mine.from_string, fine)
                d = [e3] if e3 else objects.diff(objects.facts_of(doc["read"], val), objects.project(o3))
                if d:
                    bad.append(("read after a damaged KVN document", "%s: %s" % (where, d[0]), dict(rec=rec, text=text, then=fine)))
        except engine.Endless as e:
            bad.append(("damaged KVN read", "%s: %s" % (where, e), dict(rec=rec, text=text)))
    return n, bad[:3], outs


def c25(ck):
    p = m.Plan()
    for t in m.TYPES:
        p.add(t, "max", com=30, many=1, rows=2, seed=ck.seed)
        p.add(t, "min", com=10, many=2, rows=2, seed=ck.seed + 1)
    p.rnd(m.TYPES, ck.q(2, 6), ck.seed, p=50, com=20, many=2, rows=3)
    docs = [d for d in (m.load(x) for x in m.generate(ck, p)) if d["kvn"]]
    c = Chooser(ck.seed)
    plan = []
    for n, d in enumerate(docs):
        lines = [words(ln) for ln in d["lines"]]
        DOCS.append(dict(d, lines=lines))
        lower = [w[0].lower() for w in lines if w[1:2] == ["="]]
        plan.append(dict(t=d["t"], lines=lines, lower=lower, off={k: c.num(n, k) % 1000 for k in KINDS}))
    out = os.path.join(ck.tmp, "dmg")
    os.mkdir(out)
    with open(out + ".json", "w") as f:
        json.dump(dict(part=ck.q(5, 1), read=ck.q(10, 4), deep=ck.q(12000, 5000), depth=ck.q(2, 4), docs=plan), f)
    ck.tlc("Damage", env=dict(DMG_PLAN=out + ".json", DMG_OUT=out))
    recs = []
    for x in sorted(os.listdir(out)):
        with open(os.path.join(out, x)) as f:
            recs.append(json.load(f))
    ck.count("damaged_documents", len(recs))
    for i in range(1, 5):
        ck.count("with_%d_damages" % i, sum(len(r["d"]) == i for r in recs))
    for k in KINDS:
        ck.count("damage_" + k.replace(" ", "_"), sum(r["d"][-1]["kind"] == k for r in recs))
    ck.samples.append(recs[0])
    for n, bad, outs in engine.parallel(batch, [(recs[i:i + 100], ck.seed, ck.tmp) for i in range(0, len(recs), 100)], chunk=1):
        ck.traces += n
        for k, x in outs.items():
            ck.count("read_as_" + k, x)
        for what, detail, rep in bad:
            ck.violation(what, detail, rep)
