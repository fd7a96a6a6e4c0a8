"""Between message objects of ccsds-ndm and facts: path -> (value, unit, attribute).

Only the public message classes are used: their names, field names, type hints,
enumeration literals and field values.
"""
import dataclasses
import typing
from decimal import Decimal
from enum import Enum
from functools import lru_cache

from . import repo  # noqa: F401  (puts /repo on the path)
from .engine import Unbuildable
from ccsds_ndm.models import ndmxml2 as models

ROOTS = {t: getattr(models, t.capitalize()) for t in "aem apm cdm oem omm opm rdm tdm".split()}
IDS = {t: "CCSDS_%s_VERS" % t.upper() for t in ROOTS}
VERSIONS = dict(aem="1.0", apm="1.0", cdm="1.0", oem="2.0", omm="2.0", opm="2.0", rdm="1.0", tdm="2.0")


@lru_cache(None)
def fields(cls):
    """name -> (type, is_list) of the fields of a message class"""
    hints = typing.get_type_hints(cls)
    out = {}
    for f in dataclasses.fields(cls):
        t = hints[f.name]
        is_list = typing.get_origin(t) in (list, typing.List)
        args = [a for a in typing.get_args(t) if a is not type(None)]
        out[f.name] = (args[0] if args else t, is_list)
    return out


def is_leaf_class(cls):
    return "value" in fields(cls)


# ---- projection ------------------------------------------------------------------
def _prim(v):
    if isinstance(v, Enum):
        return ("enum", v.value)
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, Decimal):
        return ("dec", v)
    if isinstance(v, int):
        return ("int", v)
    if isinstance(v, str):
        return ("txt", v)
    return (type(v).__name__, repr(v))


def _text(v):
    """a unit or attribute"""
    if v is None:
        return ""
    return v.value if isinstance(v, Enum) else "?" + repr(v) if not isinstance(v, str) else v


def _leaf(o):
    """value, unit, attribute of an object that holds a value"""
    unit, attr = "", ""
    for n in fields(type(o)):
        v = getattr(o, n)
        if n == "units":
            unit = _text(v)
        elif n != "value":
            attr = _text(v)
    v = o.value
    if v is None and "parameter" in fields(type(o)):
        v = ""  # an empty text has no value object
    return (_prim(v), unit, attr)


def project(obj):
    """the facts an object states, and the names of the classes of its blocks"""
    facts = {}

    def block(o, path, root=False):
        n = len(facts)
        for name, (_, is_list) in fields(type(o)).items():
            if root and name in ("id", "version"):
                continue
            v = getattr(o, name)
            if is_list:
                if not isinstance(v, list):
                    facts[path + name] = (("notalist", repr(v)), "", "")
                    continue
                for i, x in enumerate(v):
                    item(x, "%s%s[%d]" % (path, name, i))
            elif v is not None:
                item(v, path + name)
        extra = set(vars(o)) - set(fields(type(o)))
        for name in extra:
            facts[path + name] = (("extra", ""), "", "")
        if len(facts) == n:
            facts[path] = (("blk", ""), "", "")

    def item(v, path):
        if dataclasses.is_dataclass(v):
            if is_leaf_class(type(v)):
                facts[path] = _leaf(v)
            else:
                block(v, path + "/")
        else:
            facts[path] = (_prim(v), "", "")

    block(obj, "", root=True)
    return facts


def comment_lists(o):
    """the comment lists of an object and its parts, with their texts"""
    if isinstance(o, (list, tuple)):
        for x in o:
            yield from comment_lists(x)
    elif hasattr(o, "__dict__") and not isinstance(o, Enum):
        for k, v in vars(o).items():
            if k == "comment" and v and all(isinstance(x, str) for x in v):
                yield v, list(v)
            else:
                yield from comment_lists(v)


def same(a, b):
    """equality of values, numbers by value"""
    return a == b and type(a[0][1]) is type(b[0][1])


def diff(expected, actual, limit=6):
    """differences between two fact maps, as text"""
    out = []
    for p, e in expected.items():
        a = actual.get(p)
        if a is None:
            out.append("missing %s = %s" % (p, show(e)))
        elif not same(e, a):
            out.append("%s: expected %s, found %s" % (p, show(e), show(a)))
        if len(out) >= limit:
            return out
    for p, a in actual.items():
        if p not in expected:
            out.append("unexpected %s = %s" % (p, show(a)))
            if len(out) >= limit:
                break
    return out


def show(f):
    (kind, v), u, a = f
    return "%s %r%s%s" % (kind, v if kind != "dec" else str(v), " [%s]" % u if u else "", " (%s)" % a if a else "")


def facts_of(raw, val):
    """fact map of facts from the specification under a valuation"""
    return {f["p"]: (val.value(f["v"]), f["u"], val(f["a"])) for f in raw}


# ---- construction -----------------------------------------------------------------
def _steps(path):
    out = []
    for part in path.rstrip("/").split("/"):
        if part.endswith("]"):
            name, i = part[:-1].split("[")
            out.append((name, int(i)))
        else:
            out.append((part, None))
    return out


@lru_cache(None)
def _steps_cached(path):
    return tuple(_steps(path))


def _convert(t, value):
    """python value of a field of type t"""
    kind, v = value
    if isinstance(t, type) and issubclass(t, Enum):
        return t(v)
    return v


def build(t, facts, root=None):
    """a message object that states the given facts (path -> value, unit, attribute)"""
    path = ""
    try:
        top = root() if root is not None else ROOTS[t]()
        for path, (value, unit, attr) in facts.items():
            _put(top, path, value, unit, attr)
        return top
    except Exception as e:
        raise Unbuildable("%s cannot hold %s = %s: %r" % (t, path, show(facts[path]) if path else "", e)) from e


def _put(top, path, value, unit, attr):
    o = top
    steps = _steps_cached(path)
    for n, (name, i) in enumerate(steps):
        ft, is_list = fields(type(o))[name]
        last = n == len(steps) - 1
        if last and value[0] != "blk":
            if dataclasses.is_dataclass(ft):
                x = ft()
                for g, (gt, _) in fields(ft).items():
                    if g == "value":
                        x.value = _convert(gt, value)
                    elif g == "units":
                        x.units = gt(unit) if unit else None
                    else:
                        setattr(x, g, _convert(gt, ("", attr)) if attr else None)
            else:
                x = _convert(ft, value)
        elif is_list and i < len(getattr(o, name)):
            x = None
        elif not is_list and getattr(o, name) is not None:
            x = None
        else:
            x = ft()
        if x is not None:
            if is_list:
                lst = getattr(o, name)
                assert i == len(lst), (path, i, len(lst))
                lst.append(x)
            else:
                setattr(o, name, x)
        o = getattr(o, name)[i] if is_list else getattr(o, name)
