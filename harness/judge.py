"""Recorded executions of the real code, judged by Judge.tla.

The documents are the repository's sample files; what the code makes of them is recorded
(objects read, texts written from these objects) and the specification says whether it is right.
"""
import glob
import json
import os
import re
import xml.etree.ElementTree as ET
from decimal import Decimal

from . import kvn, objects, repo
from .engine import limit, Endless

from ccsds_ndm.ndm_io import NDMFileFormats, NdmIo

NUMBER = re.compile(r"^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$")
RAW = {"EULER_ROT_SEQ"}
MEMBER_ID = re.compile(r"^[a-z]{3}\[\d+\]/(id|version)$")
ROW = re.compile(r"(state_vector|observation|attitude_state)\[\d+\]/|covariance_matrix\[\d+\]/c[xyz]_")


def canon(text, raw=False):
    """one spelling for equal numbers"""
    text = text.strip()
    if raw or not NUMBER.match(text):
        return text
    sign, digits, exp = Decimal(text).as_tuple()
    d = "".join(map(str, digits)).lstrip("0")
    s = d.rstrip("0")
    return "#%s%s e%d" % ("-" if sign and s else "", s, exp + len(d) - len(s) if s else 0)


def record_facts(o, rows):
    out = []
    for p, ((kind, v), u, a) in objects.project(o).items():
        if MEMBER_ID.match(p):
            continue
        text = "{}" if kind == "blk" else v if kind == "enum" else canon(str(v))
        out.append(dict(p=p, v=text, u="" if rows and ROW.search(p) else u, a=a, com=p.split("/")[-1].startswith("comment[")))
    return out


def record_lines(text):
    out = []
    for ln in kvn.tokenise(text.replace("\r\n", "\n")):
        if ln["c"] in ("kv",):
            ln["v"] = canon(ln["v"], ln["k"] in RAW)
        elif ln["c"] in ("row", "obs"):
            ln["vs"] = [canon(x) for x in ln["vs"]]
        elif ln["c"] == "com":
            ln["v"] = canon(ln["v"])
        out.append(ln)
    return out


def record_events(text):
    out = []

    def ev(e, n, v="", an="", av="", u=""):
        out.append(dict(e=e, n=n, v=v, an=an, av=av, u=u))

    def node(el, root):
        if len(el) or root:
            ev("s", el.tag)
            for kid in el:
                node(kid, el.tag == "ndm" and kid.tag in objects.IDS)
            ev("e", el.tag)
            return
        attrs = {k: v for k, v in el.attrib.items() if k != "units"}
        an = next(iter(attrs), "")
        ev("l", el.tag, canon(el.text or "", el.tag in RAW), an, attrs.get(an, ""), el.attrib.get("units", ""))

    node(ET.fromstring(text.strip().encode("utf-8")), True)
    return out


def samples():
    """documents the repository comes with"""
    base = os.path.join(repo.REPO, "ccsds_ndm", "tests", "data")
    for p in sorted(glob.glob(os.path.join(base, "*", "*.kvn")) + glob.glob(os.path.join(base, "*", "*.xml"))):
        with open(p, encoding="utf-8") as f:
            text = f.read()
        if "xsi:" in text and "xmlns:xsi" not in text:
            continue  # not namespace well-formed
        yield os.path.relpath(p, base), text


def record(kinds):
    """records (name, document, facts) of the given kinds; refusals as failures"""
    recs, bad = [], []

    def add(name, o, fmt, text):
        t = type(o).__name__.lower()
        recs.append(dict(name=name, t=t, fmt=fmt, written=name.startswith("writing"), facts=record_facts(o, fmt == "kvn"),
                         lines=record_lines(text) if fmt == "kvn" else [], xml=record_events(text) if fmt == "xml" else [], text=text))

    for name, text in samples():
        fmt = name[-3:]
        what = name
        try:
            with limit():
                o = NdmIo().from_string(text)
                if "read " + fmt in kinds:
                    add("reading " + name, o, fmt, text)
                for f in ("kvn", "xml"):
                    if "write " + f in kinds and not (f == "kvn" and type(o).__name__ == "Ndm"):
                        what = "writing %s as %s" % (name, f)
                        add(what, o, f, NdmIo().to_string(o, NDMFileFormats.KVN if f == "kvn" else NDMFileFormats.XML))
        except (Exception, Endless) as e:
            bad.append((what, "%s: %s" % (type(e).__name__, str(e)[:200]), dict(sample=name)))
    return recs, bad


def judge(ck, kinds):
    """record, judge, report"""
    recs, bad = record(kinds)
    for b in bad:
        ck.violation(*b)
    if not recs:
        return
    d = os.path.join(ck.tmp, "judge%d" % len(os.listdir(ck.tmp)))
    os.mkdir(d)
    with open(d + ".json", "w") as f:
        json.dump([{k: v for k, v in r.items() if k != "text"} for r in recs], f)
    ck.tlc("Judge", env=dict(JUDGE_PLAN=d + ".json", JUDGE_OUT=d))
    outside = 0
    for i, r in enumerate(recs, 1):
        with open(os.path.join(d, "%d.json" % i)) as f:
            v = json.load(f)
        outside += v["v"] == "outside"
        if v["v"] == "wrong":
            show = ["missing %(p)s = %(v)s %(u)s %(a)s" % x for x in v["missing"][:3]] + ["unexpected %(p)s = %(v)s %(u)s %(a)s" % x for x in v["extra"][:3]]
            ck.violation(r["name"], "; ".join(show), dict(text=r["text"]))
    ck.traces += len(recs) - outside
    ck.count("recorded", len(recs))
    ck.count("recorded_outside", outside)
