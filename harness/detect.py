"""Format recognition: every text of FormatDetect.tla tried against the readers (C13)."""
import json
import os

from . import engine, messages as m, xmldoc, kvn
from .api import file_name
from .objects import ROOTS
from .values import Chooser, Valuation

from ccsds_ndm.models.ndmxml2 import Ndm
from ccsds_ndm.ndm_io import NDMFileFormats, NdmIo
from ccsds_ndm.ndm_kvn_io import NdmKvnIo
from ccsds_ndm.ndm_xml_io import NdmXmlIo

BLANK = {"sp": " ", "nl": "\n", "tab": "\t", "crlf": "\r\n", "many": " \n\n\t \r\n "}
PROLOG = {"decl": '<?xml version="1.0" encoding="UTF-8"?>', "decl1": "<?xml version='1.0' standalone=\"yes\" ?>"}
NOTE = {"note": "<!-- [CCSDS_OPM_VERS = 2.0] -->", "pi": "<?style x=\"1\"?>"}
KVNBAD = {h: h + "\nCREATION_DATE = 2000-01-01T00:00:00\nORIGINATOR = X\n" for h in (
    "CCSDS_XYZ_VERS = 1.0", "CCSDS_NDM_VERS = 1.0", "CCSDS_opm_VERS = 2.0", "CCSDS_OPM_VERSION = 2.0", "CCSDS_OPM = 2.0", "CCSDS_",
    "CCSDS_OPMX_VERS = 2.0", "CCSDS_XOPM_VERS = 2.0", "CCSDS_OEM_VER = 2.0", "CCSDS_ODM_VERS = 2.0")}
XMLBAD = {x: x for x in (
    "<foo/>", "<OPM></OPM>", "<opmType/>", "<ndms/>", "<header/>", "<metadata/>", "<segment/>", "<foo><opm/></foo>", "<ndm2></ndm2>",
    "<json>[1]</json>")}
ARRAY = {"array": "[1, 2]", "array0": "[]", "arraykvn": "[\"CCSDS_OPM_VERS = 2.0\"]", "arrayxml": "[<opm></opm>]"}
OPENER = {"[": "[", "[{": '[{"a": 1}'}
CLOSER = {"]": "]", "1]": '1, 2]'}
JUNK = {x: x for x in ("x", "<", ">", "<opm", "<opm>", "{", "}", '{"a": 1}', "0", "&", "OPM", "ccsds_opm_vers = 2.0\n", "CCSDS",
                       "OPM_VERS = 2.0\n", "COMMENT x\n", "META_START\n", "<!-- x", "NULL", "\u2020", "<\u00e9>", "<opm id=1>")}


def docs(ck):
    """a small message of each type in each format"""
    p = m.Plan()
    for t in m.TYPES:
        p.add(t, "rnd", p=30, com=10, many=1, rows=2, seed=ck.seed)
    out = {}
    for path in m.generate(ck, p):
        d = m.load(path)
        tr = m.Trial(d, "plain", ck.seed)
        body = tr.xml_text("plain")
        out["kvn:" + d["t"]] = tr.kvn_text()
        out["xml:" + d["t"]] = body[body.index("?>") + 2:].strip()
    two = out["xml:opm"] + "\n" + out["xml:rdm"]
    out["xml:ndm"] = "<ndm>\n%s\n</ndm>" % two
    return out


def alphabet(ck, pieces, maxlen, small):
    def some(d, n):
        return sorted(d) if not small else [Chooser(ck.seed).pick(sorted(d), n, k) for k in range(1 if len(d) < 8 else 2)]
    k, x = [p for p in pieces if p[:4] == "kvn:"], [p for p in pieces if p[:4] == "xml:"]
    a = dict(maxlen=maxlen, blank=some(BLANK, 1), prolog=some(PROLOG, 2), note=some(NOTE, 3), kvndoc=some(dict.fromkeys(k), 4), kvnbad=some(KVNBAD, 5),
             xmldoc=some(dict.fromkeys(x), 6), xmlbad=some(XMLBAD, 7), array=some(ARRAY, 8), opener=some(OPENER, 9), closer=some(CLOSER, 10), junk=some(JUNK, 11))
    return {n: v if n == "maxlen" else sorted(set(v)) for n, v in a.items()}


TEXT = {}
for _d in (BLANK, PROLOG, NOTE, KVNBAD, XMLBAD, ARRAY, OPENER, CLOSER, JUNK):
    TEXT.update(_d)


def outcome(fn, *a):
    try:
        with engine.limit():
            return type(fn(*a))
    except NotImplementedError:
        return "json"
    except Exception:
        return "refuse"
    except engine.Endless:
        return "endless"


def expected(v, got):
    if v == "any":
        return True
    if v in ("json", "refuse"):
        return got == v or v == "refuse" and got == "json"
    return got is (Ndm if v.endswith("ndm") else ROOTS[v[4:]])


def name(x):
    return x if isinstance(x, str) else x.__name__


def batch(args):
    texts, pieces, seed, tmp = args
    bad, n = [], 0
    c = Chooser(seed)
    for rec in texts:
        text = "".join(pieces[p] if p in pieces else TEXT[p] for p in rec["t"])
        v = rec["v"]
        ways = [("NdmIo.from_string", outcome(NdmIo().from_string, text))]
        if len(rec["t"]) < 3 or c.chance(10, rec["t"], "more"):
            path = os.path.join(tmp, str(os.getpid()), file_name(seed, rec["t"]))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w", encoding="utf-8", newline="") as f:
                f.write(text)
            ways += [("NdmIo.from_bytes", outcome(NdmIo().from_bytes, text.encode())), ("NdmIo.from_path", outcome(NdmIo().from_path, path))]
            if v != "any":
                # the readers of one format accept what is of their format, and nothing else
                for fmt, io in (("kvn", NdmKvnIo()), ("xml", NdmXmlIo())):
                    got = outcome(io.from_string, text)
                    want = v if v[:3] == fmt else "any" if fmt == "kvn" and "CCSDS_" in text else "refuse"
                    n += 1
                    if not expected(want, got):
                        bad.append(("%s.from_string" % type(io).__name__, rec, text, name(got)))
        n += len(ways)
        bad += [(w, rec, text, name(got)) for w, got in ways if not expected(v, got)]
    return n, bad[:3]


def c13(ck):
    pieces = docs(ck)
    sizes = [(ck.q(2, 3), False)] + [(ck.q(3, 4), True)]
    if not ck.thorough:
        sizes.append((4, True))
        sizes.append((3, None))
    for n, (maxlen, small) in enumerate(sizes):
        plan, out = os.path.join(ck.tmp, "a%d.json" % n), os.path.join(ck.tmp, "t%d.json" % n)
        ab = alphabet(ck, pieces, maxlen, small)
        if small is None:  # other pieces
            ck.seed += 77
            ab = alphabet(ck, pieces, maxlen, True)
            ck.seed -= 77
        with open(plan, "w") as f:
            json.dump(ab, f)
        ck.tlc("FormatDetect", env=dict(FORMAT_PLAN=plan, FORMAT_OUT=out))
        with open(out) as f:
            texts = json.load(f)
        ck.count("texts", len(texts))
        step = max(1, len(texts) // 64)
        for k, bad in engine.parallel(batch, [(texts[i:i + step], pieces, ck.seed, ck.tmp) for i in range(0, len(texts), step)], chunk=1):
            ck.traces += k
            for way, rec, text, got in bad:
                ck.violation("%s of %s" % (way, "+".join(rec["t"])), "%s instead of %s" % (got, rec["v"]), dict(text=text, verdict=rec["v"]))
        if len(ck.samples) < 3:
            ck.samples.append(texts[len(texts) // 2])
    formats(ck, pieces)


def formats(ck, pieces):
    """output to a format that is not supported is refused, and leaves no file"""
    for t in m.TYPES + ["ndm"]:
        try:
            o = NdmIo().from_string(pieces["xml:" + t])
        except Exception as e:
            ck.violation("NdmIo.from_string of %s" % t, "refused: %r" % e, dict(text=pieces["xml:" + t]))
            continue
        for fmt in (NDMFileFormats.JSON, None, "XML", 1):
            want = "json" if fmt is NDMFileFormats.JSON else "refuse"
            path = os.path.join(ck.tmp, "out")
            for way, got in (("to_string", outcome(NdmIo().to_string, o, fmt)), ("to_file", outcome(NdmIo().to_file, o, fmt, path))):
                ck.traces += 1
                if not expected(want, got):
                    ck.violation("NdmIo.%s to format %s" % (way, fmt), "%s instead of %s" % (name(got), want), dict(type=t))
            if os.path.exists(path):
                ck.violation("NdmIo.to_file to format %s" % fmt, "a file was written", dict(type=t))
                os.remove(path)
