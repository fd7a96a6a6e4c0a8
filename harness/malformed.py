"""Damaged documents of Malformed.tla tried against the readers (C20)."""
import json
import os

from . import engine, messages as m, xmldoc
from .values import Chooser, Valuation

from ccsds_ndm.ndm_io import NdmIo
from ccsds_ndm.ndm_xml_io import NdmXmlIo

DOCS = []
KINDS = ["unknown-leaf", "unknown-block", "foreign", "elsewhere", "twice", "again", "drop", "rename", "case", "cross", "end", "after", "wrap",
         "inside", "into", "chars", "move"]


def ev(kind, name):
    return dict(e=kind, n=name, v="", an="", av="", u="")


def damaged(rec, val):
    events = list(DOCS[rec["m"] - 1]["xml"])
    d = rec["d"]
    events[d["at"] - 1:d["at"] - 1 + d["del"]] = d["ins"]
    return xmldoc.render(events, val, "plain", None)


def batch(args):
    recs, seed, tmp = args
    bad, n = [], 0

    def filed(text):
        p = os.path.join(tmp, "doc-%d" % os.getpid())
        with open(p, "wb") as f:
            f.write(text.encode("utf-8"))
        return p
    for rec in recs:
        val = Valuation("plain", (seed, rec["m"]))
        text = damaged(rec, val)
        c = Chooser((seed, rec["m"], rec["k"], rec["d"]["at"]))
        ways = [("NdmIo.from_string", lambda t: NdmIo().from_string(t)), ("NdmXmlIo.from_string", lambda t: NdmXmlIo().from_string(t)),
                ("NdmIo.from_bytes", lambda t: NdmIo().from_bytes(t.encode())), ("NdmXmlIo.from_bytes", lambda t: NdmXmlIo().from_bytes(t.encode())),
                ("NdmIo.from_path", lambda t: NdmIo().from_path(filed(t))), ("NdmXmlIo.from_path", lambda t: NdmXmlIo().from_path(filed(t)))]
        name, way = c.pick(ways, "way")
        if rec["v"] == "any":
            continue
        n += 1
        try:
            with engine.limit():
                got = type(way(text)).__name__
        except Exception as e:
            got = None
            why = repr(e)[:200]
        except engine.Endless as e:
            bad.append((name, str(e), dict(rec=rec, text=text)))
            continue
        where = "%s of %s at %d (%s)" % (rec["k"], DOCS[rec["m"] - 1]["name"], rec["i"], "/".join(x["n"] for x in rec["d"]["ins"])[:60] or rec["d"]["del"])
        if rec["v"] == "bad" and got:
            bad.append((name, "%s: not refused but read as %s" % (where, got), dict(rec=rec, text=text)))
        elif rec["v"] == "ok" and not got:
            bad.append((name, "%s: refused though nothing is wrong: %s" % (where, why), dict(rec=rec, text=text)))
    return n, bad[:3]


def c20(ck):
    p = m.Plan()
    for t in m.TYPES:
        p.add(t, "max", com=30, many=1, rows=1, seed=ck.seed)
        p.add(t, "max", com=20, many=2, rows=2, seed=ck.seed + 1)
    p.rnd(m.TYPES, ck.q(2, 10), ck.seed, p=50, com=20, many=2, rows=2)
    docs = [m.load(x) for x in m.generate(ck, p)]
    leaves = sorted({(d["t"], e["n"]) for d in docs for e in d["xml"] if e["e"] == "l"})
    c = Chooser(ck.seed)
    members = [d for d in docs if len(d["xml"]) < 250] or docs
    for i in range(ck.q(3, 10)):
        two = [c.pick(members, i, k) for k in range(2)]
        docs.append(dict(path="ndm of " + "+".join(d["path"] for d in two), t="ndm",
                         xml=[ev("s", "ndm"), dict(ev("l", "MESSAGE_ID"), v="id"), dict(ev("l", "COMMENT"), v="note")] + two[0]["xml"] + two[1]["xml"] + [ev("e", "ndm")]))
    plan = []
    for n, d in enumerate(docs):
        DOCS.append(dict(name=d["path"], xml=d["xml"]))
        mine = [x for t, x in leaves if t == d["t"]]
        names = [c.pick(mine, n, k, "mine") if mine and k % 2 else c.pick(leaves, n, k)[1] for k in range(23)]
        plan.append(dict(name=d["path"], xml=d["xml"], names=names, lower=[e["n"].lower() for e in d["xml"]],
                         off={k: c.num(n, k) % 1000 for k in KINDS}))
    out = os.path.join(ck.tmp, "mal")
    os.mkdir(out)
    with open(out + ".json", "w") as f:
        json.dump(dict(part=ck.q(5, 1), docs=plan), f)
    ck.tlc("Malformed", env=dict(MAL_PLAN=out + ".json", MAL_OUT=out))
    recs = []
    for x in sorted(os.listdir(out)):
        with open(os.path.join(out, x)) as f:
            recs.append(json.load(f))
    ck.count("damages", len(recs))
    for v in ("ok", "bad", "any"):
        ck.count("verdict_" + v, sum(r["v"] == v for r in recs))
    for k in KINDS:
        ck.count("bad_" + k, sum(r["v"] == "bad" and r["k"] == k for r in recs))
    ck.samples.append({k: recs[0][k] for k in ("k", "i", "d", "v")})
    for n, bad in engine.parallel(batch, [(recs[i:i + 100], ck.seed, ck.tmp) for i in range(0, len(recs), 100)], chunk=1):
        ck.traces += n
        for what, detail, rep in bad:
            ck.violation(what, detail, rep)
