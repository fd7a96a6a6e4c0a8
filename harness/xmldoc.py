"""XML documents: from events of the specification to text, and comparison of texts."""
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

from .objects import IDS, VERSIONS
from .values import says

VARIANTS = ["plain", "flat", "cdata", "charref", "comments", "quotes", "wide", "crlf", "nodecl", "pis", "entities", "located", "undeclared", "encoding", "mixed"]
# encodings a document may have had before it was decoded
ENCODINGS = ["ISO-8859-1", "US-ASCII", "UTF-16", "windows-1252", "utf-8", "UTF-16LE", "Shift_JIS"]
# variants that concern a whole document
WHOLE = {"entities", "located", "undeclared", "encoding"}
XSI = "http://www.w3.org/2001/XMLSchema-instance"


def _spell(text, how, c, n):
    if how == "cdata" and text and "]]>" not in text and c.chance(60, n):
        return "<![CDATA[%s]]>" % text
    if how == "charref":
        return "".join("&#x%x;" % ord(ch) if c.chance(40, n, i) or ch in "&<>" else ch for i, ch in enumerate(text))
    if how in ("comments", "pis") and text and c.chance(60, n):
        odd = ("<!-- note %d -->" if how == "comments" else "<?note %d?>") % n
        at = c.num(n, "at") % (len(text) + 1)
        return escape(text[:at]) + odd + escape(text[at:])
    return escape(text)


def _entities(text, table, c, n):
    """a part of a text by way of an entity of the document"""
    if not text or not c.chance(40, n, "ent"):
        return escape(text)
    a = c.num(n, "from") % len(text)
    b = a + 1 + c.num(n, "to") % (len(text) - a)
    name = "e%d" % n
    # within an entity value, markup is written by reference to be taken as text
    table[name] = "".join("&#38;#%d;" % ord(ch) if ch in "&<>" else "&#%d;" % ord(ch) if ch in "%\"'" or ch.isspace() else ch for ch in text[a:b])
    return escape(text[:a]) + "&%s;" % name + escape(text[b:])


def _attr(name, value, how):
    q = quoteattr(value)
    if how == "quotes":
        q = "'%s'" % escape(value, {"'": "&apos;", '"': "&quot;"})
    return " %s=%s" % (name, q)


def render(events, val, variant="plain", c=None, decl=True, attrs=None):
    """text of an XML document"""
    hows = [x for x in VARIANTS[:-1] if x not in WHOLE]
    pick = (lambda n: c.pick(hows, n)) if variant == "mixed" else (lambda n: variant)
    out, depth = [], 0
    nl = "" if variant == "flat" else "\r\n" if variant == "crlf" else "\n"
    if decl and variant not in ("nodecl",):
        enc = c.pick(ENCODINGS, "encoding") if variant == "encoding" else "UTF-8"
        out.append('<?xml version="1.0" encoding="%s"?>' % enc + (nl or "\n"))
    prolog, table = len(out), {}
    attrs = dict(attrs or {})
    if decl and variant in ("located", "undeclared"):
        if variant == "located":
            attrs["xmlns:xsi"] = XSI
        kinds = ["noNamespaceSchemaLocation", "schemaLocation"]
        for k in c.pick([kinds[:1], kinds[1:], kinds], "kinds"):
            attrs["xsi:" + k] = "http://x.org/n a.xsd"
    if variant == "comments":
        out.append("<!-- generated -->" + nl)
    for n, ev in enumerate(events):
        how = pick(n)
        spaced = ""
        if ev["n"][:1] == "{" and ev["e"] in "sel":  # an expanded name
            uri, local = ev["n"][1:].split("}")
            short = ev["e"] == "l" and n % 2
            spaced = _attr("xmlns" if short else "xmlns:o", uri, how)
            ev = dict(ev, n=local if short else "o:" + local)
        ind = "" if variant == "flat" or how == "flat" else ("\t" if how == "wide" else "  ") * depth
        end = nl if how != "wide" else nl + "\n  "
        if ev["e"] in "tx":
            out.append(ev["n"] + nl)
        elif ev["e"] == "s":
            a = spaced
            if ev["n"] in IDS:
                a = _attr("id", IDS[ev["n"]], how) + _attr("version", VERSIONS[ev["n"]], how)
                for k, v in ((attrs or {}) if depth == 0 else {}).items():
                    a += _attr(k, v, how)
            out.append("%s<%s%s>%s" % (ind, ev["n"], a, end))
            depth += 1
            if how == "comments":
                out.append("<!-- %s -->%s" % (ev["n"], nl))
            if how == "pis":
                out.append("<?in %s?>%s" % (ev["n"], nl))
        elif ev["e"] == "e":
            depth = max(0, depth - 1)
            ind = "" if variant == "flat" else "  " * depth
            out.append("%s</%s%s>%s" % (ind, ev["n"], " " if how == "wide" else "", end if depth else nl))
        else:
            a = []
            if ev["an"]:
                a.append(_attr(ev["an"], val(ev["av"]), how))
            if ev["u"]:
                a.append(_attr("units", ev["u"], how))
            if how == "quotes":
                a.reverse()
            text = val(ev["v"])
            body = _entities(text, table, c, n) if how == "entities" and decl else _spell(text, how, c, n)
            if how == "wide" and val.value(ev["v"])[0] in ("dec", "int", "enum"):
                body = "  " + body + "\n"
            if spaced:
                a.append(spaced)
            s = "<%s%s%s>%s</%s>" % (ev["n"], "".join(a), " " if how == "wide" else "", body, ev["n"])
            if not text and how in ("quotes", "flat"):
                s = "<%s%s/>" % (ev["n"], "".join(a))
            out.append(ind + s + end)
    if table:
        out.insert(prolog, "<!DOCTYPE %s [\n%s\n]>%s" % (events[0]["n"], "\n".join('<!ENTITY %s "%s">' % e for e in table.items()), nl))
    return "".join(out)


def tree(events):
    """events as nested nodes: [name, leaf event or None, children]"""
    root = ["", None, []]
    stack = [root]
    for ev in events:
        if ev["e"] == "s":
            node = [ev["n"], None, []]
            stack[-1][2].append(node)
            stack.append(node)
        elif ev["e"] == "e":
            stack.pop()
        else:
            stack[-1][2].append([ev["n"], ev, []])
    return root[2][0]


def compare(text, events, val, root_attrs=None, bare_members=False):
    """differences between an XML text written by the code and the expected events"""
    try:
        el = ET.fromstring(text.encode("utf-8"))
    except ET.ParseError as err:
        return ["not well-formed: %s" % err]
    exp = tree(events)
    want = dict(root_attrs or {})
    if exp[0] in IDS:
        want.update(id=IDS[exp[0]], version=VERSIONS[exp[0]])
    return _node(el, exp, val, "", want)


def _node(el, exp, val, path, attrs):
    name, leaf, kids = exp
    here = path + "/" + name
    if el.tag != name:
        return ["%s: expected element %s, found %s" % (path, name, el.tag)]
    if leaf:
        attrs = {}
        if leaf["an"]:
            attrs[leaf["an"]] = val(leaf["av"])
        if leaf["u"]:
            attrs["units"] = leaf["u"]
    if dict(el.attrib) != attrs:
        return ["%s: attributes %r instead of %r" % (here, dict(el.attrib), attrs)]
    if leaf:
        if len(el):
            return ["%s: unexpected child %s" % (here, el[0].tag)]
        if not says(el.text, val.value(leaf["v"])):
            return ["%s: text %r instead of %r" % (here, el.text, val(leaf["v"]))]
        return []
    if (el.text or "").strip() or any((ch.tail or "").strip() for ch in el):
        return ["%s: unexpected text" % here]
    for i, kid in enumerate(kids):
        if i >= len(el):
            return ["%s: missing element %s" % (here, kid[0])]
        a = {}
        if kid[0] in IDS and name == "ndm":
            a = dict(id=IDS[kid[0]], version=VERSIONS[kid[0]])
        d = _node(el[i], kid, val, here, a)
        if d:
            return d
    if len(el) > len(kids):
        return ["%s: unexpected element %s" % (here, el[len(kids)].tag)]
    return []
