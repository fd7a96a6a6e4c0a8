"""Which behaviours are generated and replayed for each property about messages."""
from . import judge, messages as m
from .messages import TYPES, Plan

MULTI = ["aem", "oem", "tdm", "cdm"]
USER = ["opm", "omm", "rdm"]
ATT_TYPES, QUAT_TYPES, SEQS = 14, 4, 12


def common(ck, com=20, inter=0, many=2, rnd=(12, 150), types=TYPES):
    """every optional part alone and everything but it; every comment position; chance"""
    p = Plan()
    s = ck.seed
    p.sweep("optional", types, ["one", "but"], com=com, many=many, seed=s)
    p.sweep("comment", types, ["one", "but"], com=com // 2, seed=s + 1)
    for t in types:
        p.add(t, "min", com=0, seed=s)
        p.add(t, "max", com=0, seed=s, unit=1)
        p.add(t, "max", com=100, seed=s, unit=2)
    for prob, weight in ((20, 1), (50, 2), (80, 1)):
        p.rnd(types, ck.q(*rnd) * weight // 4, s + prob, p=prob, com=com, int=inter, many=3, rows=5)
    p.sweep("literal", types, ["max"], part=20, com=com // 2, many=1, rows=4, seed=s + 13)
    p.sweep("pair", types, ["one", "but"], part=ck.q(23, 5), com=com // 2, many=1, rows=2, seed=s)
    p.window(types, ["min"], ck.q(4, 1), ck.q(3, 4), com=0, many=2, rows=2, seed=s)
    p.window(types, ["max"], ck.q(9, 2), ck.q(3, 4), com=com // 2, int=1 if inter else 0, many=2, rows=2, seed=s + 1)
    attitudes(p, s, [(a, q, (a * 5 + q * 3 + s) % SEQS) for a in range(ATT_TYPES) for q in range(QUAT_TYPES)])
    for i in range(2):  # all keywords in turn
        p.add("tdm", "max", com=com, many=2, rows=80, seed=s + i * 9)
    for t, f in (("oem", "state_vector"), ("aem", "attitude_state"), ("tdm", "observation")):
        long_rows(p, s, t, f, 130)
    long_segments(p, s, 20)
    for t in USER:
        p.add(t, "rnd", p=50, com=com, many=130, seed=s, force=sized("user_defined_parameters", 1, ("user_defined", 130)))
    if ck.thorough:
        p.sweep("optional", types, ["rnd"], p=30, com=com, int=inter, many=3, rows=6, seed=s + 7)
        p.sweep("optional", types, ["rnd"], p=70, com=com, int=inter, many=3, rows=6, seed=s + 9)
    return p


def sized(f, n, *more):
    """lists of a given length"""
    return [dict(f=f, c=[n]), *(dict(f=g, c=[k]) for g, k in more)]


# the sizes of real files
def long_rows(p, s, t, f, n, segments=2):
    p.add(t, "rnd", p=60, com=15, many=segments, rows=n, seed=s * 41 + n, force=sized(f, n, ("segment", segments)))


def long_segments(p, s, n):
    for t in ("oem", "aem", "tdm"):
        p.add(t, "rnd", p=50, com=30, many=n, rows=2, seed=s * 43, force=sized("segment", n) + [
            dict(f=f, c=[(i + s) % k for i in range(n)]) for f, k in (("covariance_matrix", 3),)])


def attitudes(p, s, combos, k=6):
    """segments with attitude type, quaternion type and rotation sequence as given"""
    for i in range(0, len(combos), k):
        part = combos[i:i + k]
        p.add("aem", "rnd", p=50, com=15, many=len(part), rows=3, seed=s * 17 + i, force=[
            dict(f="segment", c=[len(part)]), dict(f="attitude_type", c=[a + 1 for a, _, _ in part]),
            dict(f="quaternion_type", c=[q + 1 for _, q, _ in part]), dict(f="euler_rot_seq", c=[e + 1 for _, _, e in part])])


def batches(ck, make, rounds):
    """in thorough runs, the same plan again with other seeds"""
    seed = ck.seed
    for r in range(ck.q(1, rounds)):
        ck.seed = seed + 1000 * r
        yield make(ck)
    ck.seed = seed


def c01(ck):
    for p in batches(ck, lambda c: common(c, com=25, inter=15), 4):
        ps = m.generate(ck, p)
        m.replay(ck, ps, ["read_kvn", ("read_kvn", "*")], ["plain", "equal", "spell"])
    judge.judge(ck, {"read kvn"})


def c02(ck):
    for p in batches(ck, common, 4):
        m.replay(ck, m.generate(ck, p), ["write_kvn", "pages"], ["plain", "spell", "equal"])
    judge.judge(ck, {"write kvn"})


def c03(ck):
    for p in batches(ck, lambda c: common(c, com=25, inter=10), 4):
        m.replay(ck, m.generate(ck, p), ["rt_kvn", "rt_text"], ["plain", "spell"])


def c04(ck):
    for p in batches(ck, common, 4):
        m.replay(ck, m.generate(ck, p), ["read_xml", ("read_xml", "*")], ["plain", "spell", "xml"])
    judge.judge(ck, {"read xml"})


def c05(ck):
    for p in batches(ck, common, 4):
        m.replay(ck, m.generate(ck, p), ["write_xml", "rt_xml", "locations"], ["plain", "spell", "xml"])
    judge.judge(ck, {"write xml"})


def c06(ck):
    for p in batches(ck, lambda c: common(c, com=15), 4):
        m.replay(ck, m.generate(ck, p), ["cross"], ["plain", "spell"])


def c07(ck):
    def make(c):
        p, s = Plan(), c.seed
        n = c.q(1, 3)
        p.sweep("optional", MULTI, ["one", "but"], many=3, com=15, seed=s, force=[dict(f="segment", c=[2])])
        for prob in (25, 50, 75):
            p.rnd(["aem", "oem", "tdm"], 12 * n, s + prob, p=prob, com=30, many=5, rows=4)
            p.rnd(["cdm"], 12 * n, s + prob, p=prob, com=30, many=2)
        two = [dict(f="segment", c=[3])]
        p.window(["oem", "aem", "tdm"], ["min"], c.q(2, 1), c.q(3, 4), seg=2, many=2, rows=2, seed=s, force=two)
        p.window(["oem", "aem", "tdm"], ["max"], c.q(4, 1), c.q(3, 4), seg=2, com=20, many=2, rows=2, seed=s + 1, force=two)
        p.window(["cdm"], ["min", "max"], c.q(8, 2), 3, seg=2, many=2, rows=2, seed=s)
        # different settings segment by segment
        for i in range(24 * n):
            p.add("aem", "rnd", p=50, com=20, many=6, rows=3, seed=s * 7 + i, force=[
                dict(f="segment", c=[6]), dict(f="attitude_type", c=[(i * 5 + k * (3 + i % 4)) % ATT_TYPES + 1 for k in range(6)]),
                dict(f="quaternion_type", c=[(i + k) % 4 + 1 for k in range(6)]),
                dict(f="euler_rot_seq", c=[(i * 7 + k * 5) % SEQS + 1 for k in range(6)])])
        for i in range(16 * n):  # covariance in some of the segments
            p.add("oem", "rnd", p=40, com=25, many=3, rows=3, seed=s * 11 + i, force=[
                dict(f="segment", c=[3]), dict(f="covariance_matrix", c=[i >> k & 1 for k in range(3)])])
        long_segments(p, s, c.q(60, 110))
        return p
    for p in batches(ck, make, 4):
        m.replay(ck, m.generate(ck, p), ["read_kvn", "write_kvn", "read_xml", "write_xml", "rt_kvn"], ["plain", "equal"])


def c08(ck):
    def make(c):
        p, s = Plan(), c.seed
        n = c.q(1, 5)
        for rows in (1, 2, 3, 7, 20):
            p.rnd(["oem"], 12 * n, s + rows, p=50, com=30, many=4, rows=rows)
        for i in range(40 * n):
            p.add("oem", "rnd", p=50, com=25, many=4, rows=6, seed=s * 13 + i, force=[
                dict(f="segment", c=[1 + i % 3]), dict(f="covariance_matrix", c=[i % 4, i // 4 % 4, i // 16 % 3])])
        p.sweep("optional", ["oem"], ["one", "but"], many=3, rows=4, com=20, seed=s)
        p.window(["oem"], ["min", "max"], 1, c.q(4, 6), com=15, many=2, rows=2, seed=s)
        for rows in c.q((130, 1100), (257, 1100, 2000)):
            long_rows(p, s, "oem", "state_vector", rows)
        p.add("oem", "rnd", p=60, com=20, many=120, rows=3, seed=s, force=sized("covariance_matrix", 120, ("segment", 2)))
        return p
    for p in batches(ck, make, 4):
        m.replay(ck, m.generate(ck, p), ["read_kvn", "write_kvn", ("read_kvn", "*"), "read_xml", "write_xml", "rt_kvn"], ["plain", "spell"])


def c09(ck):
    def make(c):
        p, s = Plan(), c.seed
        combos = [(a, q, e) for a in range(ATT_TYPES) for q in range(QUAT_TYPES) for e in range(SEQS)]
        order = m.Chooser(s)
        combos.sort(key=lambda x: order.num(x))
        combos = combos if c.thorough else combos[:288] + [(a, q, (a + q + s) % SEQS) for a in range(ATT_TYPES) for q in range(QUAT_TYPES)]
        attitudes(p, s, combos)
        for a in range(ATT_TYPES):  # settings a type does not need may be absent
            p.add("aem", "min", many=2, rows=4, seed=s + a, force=[dict(f="attitude_type", c=[a + 1])])
        p.rnd(["aem"], 30, s, p=50, com=20, many=3, rows=25)
        for rows in c.q((130, 300), (257, 1100)):
            long_rows(p, s, "aem", "attitude_state", rows)
        return p
    for p in batches(ck, make, 3):
        m.replay(ck, m.generate(ck, p), ["read_kvn", "write_kvn", "rt_kvn", "read_xml", "write_xml", "cross"], ["plain", "spell"])


def c10(ck):
    def make(c):
        p, s = Plan(), c.seed
        for rows in (1, 2, 5, 30):
            p.rnd(["tdm"], c.q(25, 100), s + rows, p=30, com=30, many=3, rows=rows)
        for i in range(8):  # all keywords in turn
            p.add("tdm", "max", com=20, many=2, rows=80, seed=s + i * 9)
        for rows in c.q((130, 1100), (257, 1100, 2000)):
            long_rows(p, s, "tdm", "observation", rows)
        return p
    for p in batches(ck, make, 3):
        m.replay(ck, m.generate(ck, p), ["read_kvn", "write_kvn", ("read_kvn", "*"), "read_xml", "write_xml", "rt_kvn", "cross"], ["plain", "spell", "equal"])


def c11(ck):
    def make(c):
        p, s = Plan(), c.seed
        for com, inter in ((30, 0), (60, 25), (100, 60)):
            p.rnd(TYPES, c.q(10, 50), s + com, p=50, com=com, int=inter, many=4, rows=3)
        p.sweep("comment", TYPES, ["one", "but"], com=60, many=4, p=50, seed=s)
        p.sweep("block", TYPES, ["one", "but"], com=50, int=10, many=3, seed=s + 5)
        p.window(TYPES, ["min"], c.q(5, 1), c.q(3, 4), com=40, int=1, many=2, rows=2, seed=s)
        p.window(TYPES, ["max"], c.q(16, 4), 3, com=60, int=1, many=2, rows=1, seed=s + 1)
        for t in TYPES:  # pages of comments
            p.add(t, "rnd", p=50, com=100, many=30, rows=2, seed=s + 3, force=[] if t == "cdm" else sized("segment", 2))
        return p
    for p in batches(ck, make, 4):
        m.replay(ck, m.generate(ck, p), ["read_kvn", "write_kvn", "pages", "read_xml", "write_xml", "rt_kvn"], ["plain", "spell"])


def c12(ck):
    def make(c):
        p, s = Plan(), c.seed
        f = [dict(f="user_defined_parameters", c=[1])]
        for many in (1, 2, 6):
            for prob in (10, 50, 90):
                p.rnd(USER, c.q(12, 60), s + many * 100 + prob, p=prob, com=30, many=many, force=f)
        p.window(USER, ["min", "max"], c.q(6, 1), 3, com=20, many=2, rows=1, seed=s, force=f)
        p.sweep("block", USER, ["one", "but"], com=30, many=3, seed=s, force=f)
        for t in USER:
            p.add(t, "rnd", p=50, com=30, many=130, seed=s, force=f + sized("user_defined", 130))
        return p
    for p in batches(ck, make, 5):
        m.replay(ck, m.generate(ck, p), ["read_kvn", "write_kvn", "rt_kvn", "read_xml", ("read_xml", "*"), "write_xml", "rt_xml", "cross"],
                 ["plain", "spell", "equal"])


def c18(ck):
    from .kvn import LAYOUTS
    def make(c):
        p, s = Plan(), c.seed
        for prob in (20, 50, 80):
            p.rnd(TYPES, c.q(8, 40), s + prob, p=prob, com=30, int=15, many=3, rows=3)
        for t in TYPES:
            p.add(t, "min", seed=s)
            p.add(t, "max", com=50, seed=s, unit=2)
        return p
    for p in batches(ck, make, 3):
        legs = [("read_kvn", x) for x in LAYOUTS] + [("layout_pair", x) for x in LAYOUTS[1:]]
        m.replay(ck, m.generate(ck, p), legs, ["plain", "spell"])


def c19(ck):
    def make(c):
        p, s = Plan(), c.seed
        for t in TYPES:
            p.add(t, "max", seed=s, unit=2, rows=10)
            p.add(t, "max", seed=s, unit=1, rows=10)
            for i in range(c.q(6, 20)):
                p.add(t, "max", seed=s * 31 + i, com=20, rows=8)
        p.rnd(TYPES, c.q(12, 60), s, p=60, com=20, many=2, rows=6)
        p.sweep("literal", TYPES, ["max"], part=20, com=10, many=1, rows=20, seed=s)
        return p
    for p in batches(ck, make, 5):
        ps = m.generate(ck, p)
        for i in range(ck.q(2, 4)):
            seed, ck.seed = ck.seed, ck.seed + i * 131
            m.replay(ck, ps, ["read_kvn", "write_kvn", "read_xml", ("read_xml", "*"), "write_xml", "rt_kvn", "cross"], ["spell"])
            ck.seed = seed


def c24(ck):
    from .kvn import LAYOUTS
    def make(c):
        p, s = Plan(), c.seed
        for prob in (25, 50, 80):
            p.rnd(TYPES, c.q(6, 40), s + prob, p=prob, com=20, int=10, many=3, rows=2)
        for t in TYPES:
            p.add(t, "min", seed=s)
            p.add(t, "max", com=30, many=3, seed=s, unit=2)
            p.add(t, "max", many=2, seed=s + 1)
        p.sweep("optional", TYPES, ["one"], com=10, many=2, seed=s)
        return p
    for p in batches(ck, make, 3):
        m.replay(ck, m.reordered(ck, p), [("read_kvn", "plain"), ("read_kvn", "*"), "rt_text"], ["plain", "spell"])
