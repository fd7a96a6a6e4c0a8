"""Makes value tokens concrete.

A token "$12:dec:nonneg" names a slot, a kind of value and a range.  A Valuation
maps each token to one literal; what the literal means (Decimal, int, text) is
decided here, without the code under test.
"""
import hashlib
from decimal import Decimal

TEXT_KINDS = ("text", "com", "uval", "uname")


def split(token):
    slot, kind, rng = token[1:].split(":")
    return int(slot), kind, rng


def is_token(v):
    return v[:1] == "$"


class Chooser:
    """Deterministic choices from a seed and a label."""

    def __init__(self, seed):
        self.seed = seed

    def num(self, *label):
        h = hashlib.blake2b(repr((self.seed,) + label).encode(), digest_size=8)
        return int.from_bytes(h.digest(), "big")

    def pick(self, seq, *label):
        return seq[self.num(*label) % len(seq)]

    def chance(self, percent, *label):
        return self.num(*label) % 100 < percent


# bounds by name: (low, high) as Decimal, None open
BOUNDS = {
    "any": (None, None), "pos": (Decimal("1e-30"), None), "nonneg": (Decimal(0), None), "neg": (None, Decimal(0)),
    "unit": (Decimal(-1), Decimal(1)), "prob": (Decimal(0), Decimal(1)),
    "pct": (Decimal(0), Decimal(100)), "deg": (Decimal(-180), Decimal("359.99")),
    "incl": (Decimal(0), Decimal(180)), "lat": (Decimal(-90), Decimal(90)),
    "lon": (Decimal(-180), Decimal(180)), "alt": (Decimal(-430), Decimal(8848)),
    "i4": (Decimal(1), Decimal(4)), "": (None, None),
}


def in_bounds(d, rng):
    lo, hi = BOUNDS[rng]
    return (lo is None or d >= lo) and (hi is None or d <= hi)


# ---- decimals ---------------------------------------------------------------------
DEC_SPELLINGS = [
    "0", "-0", "0.0", "+0.000", "1", "-1", "+1", "1.0", "1.50", "-0.5", ".5", "-.25", "5.", "00.125", "007.5",
    "1E0", "1e-7", "1E+2", "-2.5e-3", "3.e1", "0.00000000000000000001", "1E-25", "9.999999999999999999999999999999",
    "0.1234567890123456789012345678901234567890", "-0.99999999999999999999999", "0.30000000000000004",
    "12345678901234567890.123456789", "-9007199254740993", "1e22", "6.02214076E+23", "123456.7890",
    "1E+400", "-1e-400", "2.5E0400", "3." + "14159265358979" * 9, "-" + "9" * 130, "1" + "0" * 60, "." + "0" * 60 + "1",
    "100", "99.90", "45.0000", "-0.0001", "2", "3", "4", "10", "0.1", "0E-8", "-0.0E+3",
]


def decimal_plain(slot, rng):
    """a distinct ordinary number within the range"""
    frac = Decimal(slot) / 100000
    d = {
        "unit": frac, "prob": frac, "pct": frac * 1000, "deg": frac * 1000, "incl": frac * 1000, "lat": frac * 500,
        "lon": frac * 1000, "alt": frac * 10000, "neg": -(Decimal(7000) + frac), "i4": Decimal(1 + slot % 4),
    }.get(rng)
    if d is None:
        d = Decimal(1000 + slot) + Decimal(slot % 97) / 1000
        if rng == "any" and slot % 3 == 0:
            d = -d
    lo, hi = BOUNDS[rng]
    if not in_bounds(d, rng):
        d = hi if hi is not None else lo
    return format(d, "f")


# ---- epochs, text ------------------------------------------------------------------
EPOCH_SPELLINGS = [
    "2007-09-15T10:45:{s:02d}.{f}", "2007-09-15T10:45:{s:02d}.{f}Z", "2007-258T10:45:{s:02d}.{f}", "2007-09-15T10:45:{s:02d}",
    "2007-258T10:45:{s:02d}Z", "2016-12-31T23:59:{s:02d}.{f}123456789", "2000-02-29T00:00:00.{f}",
    "2008-366T23:59:{s:02d}.{f}0", "2010-01-01T00:00:{s:02d}.000{f}",
    "1957-10-04T19:28:{s:02d}.{f}", "1999-365T23:59:{s:02d}.{f}Z", "2100-01-01T00:00:{s:02d}", "0999-12-31T00:00:00.{f}", "9999-365T12:00:{s:02d}.{f}",
    "2007-09-15T24:00:00", "2007-09-15T10:45:{s:02d}.{f}+01:00", "2007-258T10:45:{s:02d}-11:30", "2016-12-31T23:59:60.{f}",
]

TEXTS = [
    "A=B", "= leading", "trailing =", "x [km]", "[deg]", "SAT [B]", "a [b] c", "[[x]]", "]x[", "A & B", "<tag>", "a<b", "a>b",
    "&amp;", "&lt;x/&gt;", "\"quoted\"", "it's", "é à ü ñ", "日本語", "Ωμ ≤ ±", "🛰 orbit", "two  spaces", "CCSDS_OPM_VERS",
    "META_START", "COMMENT x", "EPOCH = 2000", "None", "0", "1.0", "nan", "True", "{x}", "%s %d", "\\n", "a\\b", "a;b,c:d",
    "USER_DEFINED_X", "id", "version", "-", "]]>", "<![CDATA[x]]>", "<!-- c -->", "x]", "[x", "km", "RTN", "a/b", "#1", "~", "&#10;", "&#x41;&#38;", "&quot;", "&unknown;", "\\t\\x41", "%41",
    "2000-01-01T00:00:00", "yes", "OBJECT", "1 2 3", "a\u2028b", "a\u0085b", "a\u00a0b", "a\u2029\u200bb", "e\u0301", "\ufb01", "tab\there", "x\t=\t1", "two\t\ttabs", "A" * 300, "\u00e9\u65e5\U0001f6f0 " * 1700 + "end", "a = b [c]", "x=[y]",
    # usual values, what looks like a number or a keyword, bits of markup
    "UTC", "EME2000", "ITRF2000", "EARTH", "1998-057A", "NASA/JPL", "SGP/SGP4", "N/A", "NONE", "UNKNOWN", "null", "true", "ndm",
    "00025544", "12.50", "+5", "1E5", "NaN", "inf", "0x10", "-0", "1_000", ".", "...", "/", "?", "!", "@", "$1", "^x$", "(a|b)*", "a> <b", "> <", "/>", "-->", "?>", "--",
    "CREATION_DATE", "TIME_TAG", "RANGE", "META_STOP", "DATA_START", "COVARIANCE_STOP", "SEGMENT", "X", "USER_DEFINED", "COMMENT", "MAN_EPOCH_IGNITION", "OBJECT1", "STOP",
    "https://x.org/a?b=c&d=[e]#f", "mailto:a@b.c", "C:\\dir\\file", "\\", "'", "\"", "`", "=", "==", "[", "]", "[]", "[ ]", "[km]", "1 [km]", "=[km]", "a [km] [m]",
    "2007-09-15T10:45:00.000 1 2 3", "1,5", "1;2", "50%", "%", "\u00b0", "\u00b5s", "\u200d", "\U0010fffd", "\u007f", "\u00a0x\u00a0".strip("\u00a0"),
]
# texts that only XML can hold
XML_TEXTS = ["two\nlines", "a\n\n  b\n c", "  leading", "trailing  ", "\ttab", "end\n", "\nstart", "  both  ", "line <1>\n& [2]"]
COMMENTS = TEXTS + ["= starts with equals", "COMMENT COMMENT", "--- ---", "META_STOP", "X = 1.0 [km]", "2007-09-15T10:45:00.000 1 2 3 4 5 6",
                    "COVARIANCE_START", "DATA_STOP", "OBJECT_NAME = FOO", "1 2", "*", "EPOCH"]
NAMES = ["{n}", "A_{n}", "USER_DEFINED_{n}", "EPOCH{n}", "X.{n}", "EARTH-MODEL-{n}", "{n}_", "_{n}", "{n}[KM]", "lower{n}", "camelCase{n}", "Mixed_Case-{n}", "x{n}y", "stra\u00dfe{n}", "\u00e9\u00c9{n}", "\u0131{n}", "user_defined_{n}", "{n}\u65e5\u672c", "a/b.{n}", "{n}:(1)", "0{n}", "COMMENT{n}", "comment"+"_{n}"]


def epoch(slot, form=0):
    return EPOCH_SPELLINGS[form].format(s=slot % 60, f="%03d" % (slot // 60 % 1000))


class Valuation:
    """token -> literal.

    profile  plain   distinct ordinary values
             spell   all spellings of numbers, epochs and texts
             xml     texts that only XML can hold
             long    texts of several thousand characters
             equal   few values, so that many fields hold the same one
    kvn/xml  whether the message will be spelled in that format
    """

    def __init__(self, profile, seed, kvn=True, xml=True):
        self.profile, self.c, self.kvn, self.xml = profile, Chooser(seed), kvn, xml
        self.memo = {}

    def __call__(self, v):
        """literal text of a token (enumeration literals stand for themselves)"""
        if not is_token(v):
            return v
        lit = self.memo.get(v)
        if lit is None:
            lit = self.memo[v] = self.make(*split(v))
        return lit

    def make(self, slot, kind, rng):
        p, c = self.profile, self.c
        if p == "equal":
            slot = 1 + c.num(slot) % 2
        if kind == "dec":
            if p == "spell" and c.chance(85, slot, "d"):
                for i in range(8):
                    lit = c.pick(DEC_SPELLINGS, slot, i)
                    if in_bounds(Decimal(lit), rng):
                        return lit
            return decimal_plain(slot, rng)
        if kind == "int":
            if p == "spell":
                return c.pick(["1", "0", "7", "12", "+3", "007", "100", "2147483647", "99999999999999999999"], slot)
            return str(slot)
        if kind == "epoch":
            return epoch(slot, c.num(slot, "e") % len(EPOCH_SPELLINGS) if p == "spell" else 0)
        if kind == "uname":
            n = "P%d" % slot
            return c.pick(NAMES, slot, "n").format(n=n) if p == "spell" else n
        if p == "spell" and c.chance(dict(uval=15, com=7, text=4)[kind], slot, "empty"):
            return ""
        if p == "long" and kind in ("text", "uval", "com"):  # of many blocks of a file, in characters of one to four bytes
            return ("%s%d " % (kind, slot) + c.pick(["x" * 7, "\u00e9\u65e5\U0001f6f0 ab", "a=[b] & <c>"], slot) * (c.num(slot, "len") % 1500 + 300)).strip()
        if p == "xml" and c.chance(60, slot, "t"):
            return c.pick(XML_TEXTS, slot, "t")
        if p == "spell" and c.chance(75, slot, "t"):
            return c.pick(COMMENTS if kind == "com" else TEXTS, slot, "t")
        return {"com": "Note %d", "uval": "UV%d", "text": "TXT%d"}[kind] % slot

    def value(self, v):
        """what the value is: kind and exact value"""
        if not is_token(v):
            return ("blk", "") if v == "{}" else ("enum", v)
        kind, lit = split(v)[1], self(v)
        if kind == "dec":
            return ("dec", Decimal(lit))
        if kind == "int":
            return ("int", int(lit))
        return ("txt", lit)


def same_number(text, expected):
    """whether text spells exactly the decimal number"""
    try:
        return Decimal(text) == expected and Decimal(text).is_finite()
    except Exception:
        return False


def says(text, expected):
    """whether a literal found in an output states the expected value"""
    kind, val = expected
    text = "" if text is None else text
    if kind == "dec":
        return text == text.strip() and same_number(text, val)
    if kind == "int":
        try:
            return text == text.strip() and int(text) == val
        except ValueError:
            return False
    return text == val
