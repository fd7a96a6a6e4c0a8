#!/opt/venv/bin/python
"""One-off tool (NOT run by any check): prints spec/NdmSchema.tla from the message classes of the
pinned commit.  The output was reviewed against CCSDS 502.0-B-2, 503.0-B-2, 504.0-B-1, 505.0-B-2,
508.0-B-1, 508.1-B-1 vocabulary and committed; from then on it is the reference, not the code."""
import dataclasses, typing, enum
from decimal import Decimal
from ccsds_ndm.models import ndmxml2 as M

ROW = {"StateVectorAccType": "sv", "OemCovarianceMatrixType": "cov",
       "AttitudeStateType": "att", "TrackingDataObservationType": "obs"}
MARK = {"AemMetadata": "META", "OemMetadata": "META", "TdmMetadata": "META",
        "AemData": "DATA", "TdmData": "DATA", "OemCovarianceMatrixType": "COVARIANCE"}

def q(s): return '"%s"' % s
def seq(xs): return "<<" + ", ".join(q(x) for x in xs) + ">>"

def bound(md, int_=False):
    lo = md.get("min_inclusive"); lox = md.get("min_exclusive")
    hi = md.get("max_inclusive"); hix = md.get("max_exclusive")
    key = tuple(None if v is None else float(v) for v in (lo, lox, hi, hix))
    return {(None,)*4: "any", (0., None, None, None): "nonneg", (None, 0., None, None): "pos",
            (None, None, None, 0.): "neg", (-1., None, 1., None): "unit", (0., None, 1., None): "prob",
            (0., None, 100., None): "pct", (-180., None, None, 360.): "deg", (0., None, 180., 360.): "incl",
            (-90., None, 90., None): "lat", (-180., None, 180., None): "lon", (-430.5, None, 8848., None): "alt",
            (0., None, 9999., None): "i4"}[key]

class Gen:
    def __init__(self): self.out = []; self.units = {}; self.enums = {}
    def emit(self, ind, s): self.out.append("  " * ind + s)
    def uset(self, lits):
        name = "U_" + "_".join("".join(c if c.isalnum() else "x" for c in l) for l in lits[:1]) + str(len(lits))
        base = name; i = 0
        while self.units.get(name, lits) != lits: i += 1; name = base + "_%d" % i
        self.units[name] = lits; return name
    def eset(self, cls):
        lits = [e.value for e in cls]; name = "E_" + cls.__name__
        i = 0; base = name
        while self.enums.get(name, lits) != lits: i += 1; name = base + "_%d" % i
        self.enums[name] = lits; return name

def count(cls):
    n = 0
    h = typing.get_type_hints(cls)
    for f in dataclasses.fields(cls):
        if f.name in ("id", "version"): continue
        b = typing.get_args(h[f.name])[0]
        n += (count(b) + 2) if dataclasses.is_dataclass(b) and "value" not in typing.get_type_hints(b) else 1
    return n

def walk(g, cls, ind, pos):
    h = typing.get_type_hints(cls)
    for f in dataclasses.fields(cls):
        if f.name in ("id", "version"): continue
        t = h[f.name]; isl = typing.get_origin(t) is list; b = typing.get_args(t)[0]
        md = f.metadata; x = md.get("name", f.name)
        req = bool(md.get("required") or md.get("min_occurs"))
        lo = md.get("min_occurs", 1) if req else 0
        hi = (md.get("max_occurs", 0) if isl else 1)
        if dataclasses.is_dataclass(b):
            hh = typing.get_type_hints(b)
            if "value" not in hh:
                n = count(b)
                g.emit(ind, "B(%s, %s, %d, %d, %s, %s, %d)," % (q(f.name), q(x), lo, hi, q(ROW.get(b.__name__, "")), q(MARK.get(b.__name__, "")), pos + n + 1))
                pos = walk(g, b, ind + 1, pos + 1)
                g.emit(ind, "E(%s)," % q(f.name)); pos += 1
                continue
            vmd = [k for k in dataclasses.fields(b) if k.name == "value"][0].metadata
            if "units" in hh:
                us = g.uset([u.value for u in typing.get_args(hh["units"])[0]])
                key = "angle" if "angle" in hh else "rate" if "rate" in hh else ""
                if key:
                    g.emit(ind, "R(%s, %s, %s, %s, %d, %s)," % (q(f.name), q(x), q(key), us, lo, q(bound(vmd))))
                else:
                    g.emit(ind, "D(%s, %s, %s, %d, %s)," % (q(f.name), q(x), us, lo, q(bound(vmd))))
            else:
                g.emit(ind, "U(%s, %s, %d)," % (q(f.name), q(x), lo))
        else:
            if f.name == "comment": g.emit(ind, "C(%s, %s)," % (q(f.name), q(x)))
            elif issubclass(b, enum.Enum): g.emit(ind, "N(%s, %s, %s, %d)," % (q(f.name), q(x), g.eset(b), lo))
            else:
                ty = {str: "text", Decimal: "dec", int: "int"}[b]
                if ty == "text" and "pattern" in md: ty = "epoch"
                g.emit(ind, "L(%s, %s, %s, %d, %s)," % (q(f.name), q(x), q(ty), lo, q(bound(md))))
        pos += 1
    return pos

g = Gen(); bodies = []
for n in "Aem Apm Cdm Oem Omm Opm Rdm Tdm".split():
    g.out = []
    walk(g, getattr(M, n), 1, 1)
    g.out[-1] = g.out[-1].rstrip(",")
    bodies.append((n, list(g.out)))
print("---------------------------- MODULE NdmSchema ----------------------------")
print("(* The vocabulary of the eight navigation data messages, as a program of")
print("   entries in schema order.  B/E: begin/end of a block, C: comment list,")
print("   L: text, epoch, decimal or integer leaf, N: enumeration, D: decimal with")
print("   optional unit, R: rotation component (keyword held by an attribute),")
print("   U: user-defined parameter list.  `lo'/`hi' are the occurrence bounds (hi = 0: unbounded). *)")
print("EXTENDS Naturals, Sequences")
print("""
Entry(k, f, x, t, us, en, lo, hi, row, mark, e, b) ==
  [k |-> k, f |-> f, x |-> x, t |-> t, us |-> us, en |-> en, lo |-> lo, hi |-> hi,
   row |-> row, mark |-> mark, e |-> e, b |-> b]
B(f, x, lo, hi, row, mark, e) == Entry("open", f, x, "", <<>>, <<>>, lo, hi, row, mark, e, "")
E(f)             == Entry("close", f, "", "", <<>>, <<>>, 1, 1, "", "", 0, "")
C(f, x)          == Entry("leaf", f, x, "comment", <<>>, <<>>, 0, 0, "", "", 0, "")
L(f, x, t, lo, b)   == Entry("leaf", f, x, t, <<>>, <<>>, lo, 1, "", "", 0, b)
N(f, x, en, lo)  == Entry("leaf", f, x, "enum", <<>>, en, lo, 1, "", "", 0, "")
D(f, x, us, lo, b)  == Entry("leaf", f, x, "dim", us, <<>>, lo, 1, "", "", 0, b)
R(f, x, key, us, lo, b) == Entry("leaf", f, x, key, us, <<>>, lo, 1, "", "", 0, b)
U(f, x, lo)      == Entry("leaf", f, x, "user", <<>>, <<>>, lo, 0, "", "", 0, "")
""")
for k, v in sorted(g.units.items()): print("%s == %s" % (k, seq(v)))
print()
for k, v in sorted(g.enums.items()): print("%s == %s" % (k, seq(v)))
for n, body in bodies:
    print("\nProg%s == <<" % n); print("\n".join(body)); print(">>")
print("""
Types == <<"aem", "apm", "cdm", "oem", "omm", "opm", "rdm", "tdm">>
ProgOf(t) == CASE t = "aem" -> ProgAem [] t = "apm" -> ProgApm [] t = "cdm" -> ProgCdm
               [] t = "oem" -> ProgOem [] t = "omm" -> ProgOmm [] t = "opm" -> ProgOpm
               [] t = "rdm" -> ProgRdm [] t = "tdm" -> ProgTdm""")
vers = {n.lower(): (getattr(M, n)().id, getattr(M, n)().version) for n, _ in bodies}
print("VersionKeyword == [" + ", ".join("%s |-> %s" % (k, q(v[0])) for k, v in vers.items()) + "]")
print("VersionOf == [" + ", ".join("%s |-> %s" % (k, q(v[1])) for k, v in vers.items()) + "]")
print("=============================================================================")
