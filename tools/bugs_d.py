K, X, N = "ccsds_ndm/ndm_kvn_io.py", "ccsds_ndm/ndm_xml_io.py", "ccsds_ndm/ndm_io.py"
M = "ccsds_ndm/models/ndmxml2/ndmxml_2_0_0_"
BUGS = []


def bug(id, prop, needs, breaks, demo, *edits):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, demo=demo, edits=edits))


TURNS = '''
import sys, threading, random


class Turns:
    """threads that run one at a time and change at random lines of the library"""
    def __init__(self, fns, seed):
        self.rnd, self.turn, self.cond = random.Random(seed), 0, threading.Condition()
        self.live, self.out = set(range(len(fns))), [None] * len(fns)
        self.threads = [threading.Thread(target=self.run, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in self.threads:
            t.start()
        for t in self.threads:
            t.join(60)

    def mine(self, i):
        with self.cond:
            while self.turn != i:
                self.cond.wait(1)

    def step(self, i):
        if self.rnd.random() < 0.05:
            with self.cond:
                self.turn = self.rnd.choice(sorted(self.live))
                self.cond.notify_all()
            self.mine(i)

    def run(self, i, fn):
        self.mine(i)
        def trace(frame, event, arg):
            if "ccsds_ndm" not in frame.f_code.co_filename:
                return None
            self.step(i)
            return trace
        sys.settrace(trace)
        try:
            self.out[i] = fn()
        except Exception as e:
            self.out[i] = e
        sys.settrace(None)
        with self.cond:
            self.live.discard(i)
            if self.live:
                self.turn = min(self.live)
            self.cond.notify_all()
'''

bug("kvn-writer-lines-in-class", "C21", "two threads writing KVN at the same time",
    "The lines of the text being written are collected in a list of the class: threads that write at the same time mix their lines.",
    TURNS + '''
a, b = read(opm()), read(rdm())
want = [kvn(a), kvn(b)]
for seed in range(20):
    got = Turns([lambda: kvn(a), lambda: kvn(b)], seed).out
    assert got == want, seed
''',
    (K, '''    _keys: List[str] = []
    _lines: List[List[str]] = []
''', '''    _keys: List[str] = []
    _lines: List[List[str]] = []
    _out_str: List[str] = []
'''),
    (K, '''        out_str = [_fill_str_out_kvn(ndm_obj.id, ndm_obj.version)]
''', '''        out_str = self._out_str
        out_str[:] = [_fill_str_out_kvn(ndm_obj.id, ndm_obj.version)]
'''))

bug("unified-shares-xml-writer", "C21", "two threads writing XML through NdmIo with different schema locations",
    "NdmIo writes through one XML writer for all, so a thread may write with the schema locations another one asked for.",
    TURNS + '''
o = read(opm())
fns = [lambda: NdmIo().to_string(o, NDMFileFormats.XML, schema_location="a b.xsd"), lambda: NdmIo().to_string(o, NDMFileFormats.XML)]
want = [f() for f in fns]
assert want[0] != want[1]
for seed in range(60):
    got = Turns(fns, seed).out
    assert got == want, seed
''',
    (N, '''class NdmIo:
''', '''_XML_IO = NdmXmlIo()


class NdmIo:
'''),
    (N, '''            return NdmXmlIo().to_string(ndm_obj, **kwargs)
''', '''            return _XML_IO.to_string(ndm_obj, **kwargs)
'''))

bug("unified-shares-kvn-reader", "C21", "two threads reading KVN through NdmIo",
    "NdmIo reads KVN with one reader for all, so that threads find the lines of each other's message.",
    TURNS + '''
a, b = opm(), rdm()
want = [read(a), read(b)]
for seed in range(20):
    got = Turns([lambda: NdmIo().from_string(a), lambda: NdmIo().from_string(b)], seed).out
    assert got == want, seed
''',
    (N, '''class NdmIo:
''', '''_KVN_IO = NdmKvnIo()


class NdmIo:
'''),
    (N, '''            return NdmKvnIo().from_string(ndm_data_source)
''', '''            return _KVN_IO.from_string(ndm_data_source)
'''))
