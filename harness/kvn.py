"""KVN documents: from lines of the specification to text, and from text to lines."""
import re

from .values import says

LAYOUTS = ["plain", "tight", "wide", "tabs", "blank", "crlf", "indent", "comeq", "noeol", "tabindent", "mixed", "eols"]

INDENT = ["\t", "    ", " ", "\t\t", " \t", "\t  "]
TRAIL = ["", "\t", " ", "  \t", "\t "]
BETWEEN = [" ", "   ", "\t", "\t\t", " \t "]


def render(lines, val, layout="plain", c=None):
    """text of a document; c chooses white space in the free layouts"""
    out = []

    def ws(n, choices):
        if layout == "mixed":
            return c.pick(choices, len(out), n)
        return None

    for ln in lines:
        kind = ln["c"]
        if kind in ("kv", "ver"):
            k, v, u = (_keyword(ln["k"], val), val(ln["v"]), ln["u"])
            if layout == "tight":
                s = "%s=%s%s" % (k, v, "[%s]" % u if u else "")
            elif layout == "wide":
                s = "%-30s =    %s%s" % (k, v, "     [ %s ]" % u if u else "")
            elif layout == "tabs":
                s = "%s\t=\t%s%s" % (k, v, "\t[%s]" % u if u else "")
            elif layout == "mixed":
                sp = ["", " ", "   ", "\t"]
                s = k + ws(1, sp) + "=" + ws(2, sp) + v + (ws(3, sp) + "[%s]" % u if u else "") + ws(4, ["", " ", "\t "])
            else:
                s = "%-20s = %s%s" % (k, v, " [%s]" % u if u else "")
        elif kind == "com":
            v = val(ln["v"])
            # a leading '=' needs the explicit form
            eq = layout == "comeq" or v.startswith("=") or (layout == "mixed" and c.chance(30, len(out)))
            s = "COMMENT%s%s%s" % (ws(5, [" ", "\t", "  "]) or ("\t" if layout == "tabs" else " "), "= " if eq else "", v)
            if layout == "tight" and c.chance(50, len(out), "tc"):
                s = "COMMENT=" + v
            if eq and layout == "mixed":
                s = "COMMENT" + ws(9, ["", " ", "\t", "  "]) + "=" + ws(10, ["", " ", "\t", "   "]) + v
            if layout == "wide":
                s = "COMMENT  %s   %s" % ("=" if eq else "", v)
        elif kind == "mark":
            s = ln["k"]
        elif kind == "obs":
            sp = ws(6, BETWEEN) or {"wide": "     ", "tabs": "\t"}.get(layout, " ")
            s = "%s = %s%s%s" % (ln["k"], val(ln["vs"][0]), sp, val(ln["vs"][1]))
        else:
            sp = ws(7, BETWEEN) or {"wide": "      ", "tabs": "\t"}.get(layout, " ")
            s = sp.join(val(v) for v in ln["vs"])
        if layout == "indent" or (layout == "mixed" and c.chance(30, len(out), "i")):
            s = (ws(8, INDENT) or "    ") + s
        if layout == "tabindent":
            s = c.pick(INDENT, len(out), "ti") + s + c.pick(TRAIL, len(out), "tt")
        if layout == "wide":
            s += "   "
        if layout == "mixed":
            s += c.pick(TRAIL, len(out), "tr")
        out.append(s)
        if (layout == "blank" and kind != "x") or (layout == "mixed" and c.chance(20, len(out), "b")):
            out.append(c.pick(["", "   ", "\t", " \t "], len(out), "bl") if layout == "mixed" else "")
    nl = "\r\n" if layout == "crlf" or (layout == "mixed" and c.chance(30, "crlf")) else "\n"
    if layout == "eols":  # a file put together from others
        return "".join(s + c.pick(["\n", "\r\n"], i, "eol") for i, s in enumerate(out))
    text = nl.join(out)
    if layout == "noeol" or (layout == "mixed" and c.chance(30, "eol")):
        return text
    if layout == "blank":
        return "\n\n" + text + "\n\n\n"
    return text + nl


def _keyword(k, val):
    """user-defined keywords end in a name token"""
    i = k.find("$")
    return k if i < 0 else k[:i] + val(k[i:])


MARK = re.compile(r"^(META|DATA|COVARIANCE)_(START|STOP)$")


def compare(text, lines, val):
    """differences between a KVN text written by the code and the expected lines"""
    actual = [s.strip() for s in text.split("\n") if s.strip()]
    out = []
    for i, ln in enumerate(lines):
        if i >= len(actual):
            out.append("line missing: %s" % describe(ln, val))
            break
        why = mismatch(actual[i], ln, val)
        if why:
            out.append("line %d: expected %s, found %r (%s)" % (i + 1, describe(ln, val), actual[i], why))
            break
    if not out and len(actual) > len(lines):
        out.append("line %d: unexpected %r" % (len(lines) + 1, actual[len(lines)]))
    return out


def describe(ln, val):
    if ln["c"] in ("row", "obs"):
        return "%s %s" % (ln["k"], " ".join(val(v) for v in ln["vs"]))
    return "%s = %s %s" % (_keyword(ln["k"], val), val(ln["v"]), "[%s]" % ln["u"] if ln["u"] else "")


def mismatch(s, ln, val):
    kind = ln["c"]
    if kind == "mark":
        return None if s == ln["k"] else "marker"
    if kind == "row":
        got = s.split()
        if len(got) != len(ln["vs"]):
            return "%d columns instead of %d" % (len(got), len(ln["vs"]))
        for g, v in zip(got, ln["vs"]):
            if not says(g, val.value(v)):
                return "column %r" % g
        return None
    if kind == "com":
        if not s.startswith("COMMENT"):
            return "comment keyword"
        rest = s[7:].strip()
        if rest.startswith("="):
            rest = rest[1:].strip()
        return None if rest == val(ln["v"]) else "comment text"
    if "=" not in s:
        return "no ="
    k, v = s.split("=", 1)
    k, v = k.strip(), v.strip()
    if k != (_keyword(ln["k"], val)):
        return "keyword"
    if kind == "obs":
        got = v.split()
        if len(got) != 2 or not says(got[0], val.value(ln["vs"][0])) or not says(got[1], val.value(ln["vs"][1])):
            return "observation"
        return None
    if kind == "ver":
        return None if v == ln["v"] else "version"
    if ln["u"]:
        m = re.match(r"^(.*?)\s*\[([^\[\]]*)\]$", v)
        if not m:
            return "unit missing"
        if m.group(2).strip() != ln["u"]:
            return "unit"
        v = m.group(1)
    return None if says(v, val.value(ln["v"])) else "value"


# ---- from text to lines (independent reading of arbitrary documents) ----------------
def tokenise(text):
    """lines of a KVN document, without interpretation of keywords"""
    out = []
    tdm, data = False, False
    for n, raw in enumerate(x for x in (s.strip() for s in text.split("\n")) if x):
        if n == 0:
            k, v = raw.split("=", 1)
            tdm = k.strip() == "CCSDS_TDM_VERS"
            out.append(dict(c="ver", k=k.strip(), v=v.strip(), u="", vs=[]))
        elif raw.startswith("COMMENT"):
            v = raw[7:].strip()
            if v.startswith("="):
                v = v[1:].strip()
            out.append(dict(c="com", k="COMMENT", v=v, u="", vs=[]))
        elif MARK.match(raw):
            if raw.startswith("DATA"):
                data = raw == "DATA_START"
            out.append(dict(c="mark", k=raw, v="", u="", vs=[]))
        elif "=" not in raw:
            out.append(dict(c="row", k="", v="", u="", vs=raw.split()))
        else:
            k, v = (x.strip() for x in raw.split("=", 1))
            if tdm and data:
                out.append(dict(c="obs", k=k, v="", u="", vs=v.split()))
            else:
                m = re.match(r"^(.*?)\s*\[([^\[\]]*)\]$", v)
                u = m.group(2).strip() if m else ""
                out.append(dict(c="kv", k=k, v=m.group(1) if m else v, u=u, vs=[]))
    return out
