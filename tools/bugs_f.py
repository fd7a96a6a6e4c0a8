K, X, N = "ccsds_ndm/ndm_kvn_io.py", "ccsds_ndm/ndm_xml_io.py", "ccsds_ndm/ndm_io.py"
BUGS = []


def bug(id, prop, needs, breaks, demo, *edits):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, demo=demo, edits=edits))


SCRATCH = '''
import os, tempfile, shutil
from pathlib import Path
from ccsds_ndm.ndm_kvn_io import NdmKvnIo
from ccsds_ndm.ndm_xml_io import NdmXmlIo
d = tempfile.mkdtemp()
try:
    o = read(opm())
%s
finally:
    shutil.rmtree(d)
'''


def scratch(body):
    return SCRATCH % "\n".join("    " + x for x in body.strip("\n").split("\n"))


bug("save-makes-directories", "C22", "a target path whose directory does not exist (a misspelt one)",
    "Writing makes the missing directories of the path instead of failing.",
    scratch('''
p = os.path.join(d, "misspelt", "more", "x.xml")
try:
    NdmXmlIo().to_file(o, p)
    raise SystemExit("written")
except OSError:
    pass
assert os.listdir(d) == []
'''),
    (X, '''        xml_txt = self.to_string(
''', '''        target = Path(xml_write_file_path)
        target.parent.mkdir(parents=True, exist_ok=True)
        xml_text = self.to_string(
'''), (X, '''        xml_data = xml_txt.encode("utf-8")
        Path(xml_write_file_path).write_bytes(xml_data)
''', '''        xml_data = xml_text.encode("utf-8")
        target.write_bytes(xml_data)
'''))

bug("unreadable-characters-replaced", "C22", "a file with an octet that is not UTF-8",
    "Octets that are not UTF-8 are replaced when a KVN file is read, instead of refusing the file.",
    scratch('''
p = os.path.join(d, "x.kvn")
b = opm(head="COMMENT caf\\u00e9\\n").encode("latin-1")
Path(p).write_bytes(b)
try:
    NdmKvnIo().from_path(p)
    raise SystemExit("read")
except UnicodeDecodeError:
    pass
'''),
    (K, '''        with open(kvn_read_file_path, "r", encoding="utf-8") as f:
            kvn_source = f.read()
''', '''        with open(kvn_read_file_path, "rb") as f:
            kvn_source = f.read().decode("utf-8", "replace").replace("\\r\\n", "\\n")
'''))

bug("backup-file-left", "C22", "saving over an existing file",
    "The former content of an XML file is left in a file beside it.",
    scratch('''
p = os.path.join(d, "x.xml")
NdmXmlIo().to_file(o, p)
NdmXmlIo().to_file(o, p)
assert os.listdir(d) == ["x.xml"], os.listdir(d)
'''),
    (X, '''        xml_txt = self.to_string(
''', '''        target = Path(xml_write_file_path)
        xml_text = self.to_string(
'''), (X, '''        xml_data = xml_txt.encode("utf-8")
        Path(xml_write_file_path).write_bytes(xml_data)
''', '''        xml_data = xml_text.encode("utf-8")
        if target.is_file():
            target.replace(str(target) + ".orig")
        target.write_bytes(xml_data)
'''))

bug("decimal-precision-raised", "C22", "any read of a KVN message, the decimal context looked at afterwards",
    "The decimal precision of the whole process is changed by reading.",
    '''
import decimal
before = decimal.getcontext().prec
read(oem(oem_segment()))
assert decimal.getcontext().prec == before
''',
    (K, '''        # parse file to fill lines and keys lists
        self._pre''', '''        getcontext().prec = max(getcontext().prec, 40)

        # parse file to fill lines and keys lists
        self._pre'''), (K, '''from decimal import Decimal
''', '''from decimal import Decimal, getcontext
'''))

bug("missing-file-is-text", "C22", "a file system or a limit that leaves no room for the file",
    "A write that fails for lack of room half way is passed over.",
    scratch('''
import resource
p = os.path.join(d, "x.xml")
NdmXmlIo().to_file(o, p)
resource.setrlimit(resource.RLIMIT_FSIZE, (100, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
try:
    NdmXmlIo().to_file(o, os.path.join(d, "y.xml"))
    raise SystemExit("nothing reported")
except OSError:
    pass
'''),
    (X, '''        xml_txt = self.to_string(
''', '''        xml_text = self.to_string(
'''), (X, '''        xml_data = xml_txt.encode("utf-8")
        Path(xml_write_file_path).write_bytes(xml_data)
''', '''        xml_data = xml_text.encode("utf-8")
        with open(xml_write_file_path, "wb", buffering=0) as f:
            f.write(xml_data)
'''))

bug("reader-busy-after-interrupt", "C23", "a KVN read that is interrupted, then another one with the same reader",
    "The reader keeps its state of an unfinished read: the next one adds to it.",
    '''
import sys
from ccsds_ndm.ndm_kvn_io import NdmKvnIo
class Stop(BaseException): pass
text = opm()
want = NdmKvnIo().from_string(text)
io = NdmKvnIo()
def tr(frame, event, arg):
    if event == "call" and frame.f_code.co_name == "_init_object_map":
        raise Stop
    return None
sys.settrace(tr)
try:
    io.from_string(opm(head="COMMENT interrupted\\n"))
except Stop:
    pass
finally:
    sys.settrace(None)
assert io.from_string(text) == want
''',
    (K, '''        input_lines = kvn_source.split("\\n")

        lines = []
''', '''        input_lines = kvn_source.split("\\n")

        # what is left of an unfinished read belongs to this one
        lines = getattr(self, "_pending", [])
        self._pending = lines
'''), (K, '''        # build the object
        return self._build_object()
''', '''        # build the object
        self._pending = []
        return self._build_object()
'''))

bug("interrupt-swallowed", "C23", "an interrupt while the object of a KVN read is built",
    "An interrupt during the reading of a value is swallowed with the errors of the value.",
    '''
import sys
from ccsds_ndm.ndm_kvn_io import NdmKvnIo
Stop = KeyboardInterrupt
hits = []
def tr(frame, event, arg):
    if event == "call" and frame.f_code.co_name == "_xmlify_list" and not hits:
        hits.append(1)
        raise Stop
    return None
sys.settrace(tr)
try:
    NdmKvnIo().from_string(opm())
    raise SystemExit("swallowed %s" % hits)
except Stop:
    pass
finally:
    sys.settrace(None)
''',
    (K, '''            subobject = self.__build_object_tree(subclass, full_lines, parser)
''', '''            try:
                subobject = self.__build_object_tree(subclass, full_lines, parser)
            except KeyboardInterrupt:
                subobject = None
'''))

bug("keyword-list-half-made", "C23", "an interrupt while the keywords of a class are collected for the first time in the process",
    "The keywords of a class are collected in a list kept for later reads; if this is interrupted, the rest is missing from then on.",
    '''
import sys
from ccsds_ndm.ndm_kvn_io import NdmKvnIo
text = opm(head="COMMENT a\\n")
class Stop(BaseException): pass
state = dict(n=0, at=0)
def line(frame, event, arg):
    state["n"] += 1
    if state["n"] == state["at"]:
        raise Stop
    return line
def tr(frame, event, arg):
    return line if frame.f_code.co_name == "_get_ccsds_kw_list" else None
import subprocess, os
if len(sys.argv) < 2:
    for at in range(1, 90, 3):
        r = subprocess.run([sys.executable, __file__, str(at)], cwd=os.getcwd())
        assert r.returncode == 0, "broken off at step %d" % at
else:
    state["at"] = int(sys.argv[1])
    sys.settrace(tr)
    try:
        NdmKvnIo().from_string(text)
    except Stop:
        pass
    sys.settrace(None)
    o = NdmKvnIo().from_string(text)
    assert o.header.comment == ["a"] and o.header.originator and o.body.segment.metadata.object_name and o.body.segment.data.state_vector.x_dot.value is not None
''',
    (K, '''        kw_list = [
            var.metadata["name"]
            for var in vars(clazz)["__dataclass_fields__"].values()
            if "name" in var.metadata.keys()
        ]
''', '''        kw_list = _kw_lists.setdefault(clazz, [])
        if kw_list:
            return kw_list
        for var in vars(clazz)["__dataclass_fields__"].values():
            if "name" in var.metadata.keys():
                kw_list.append(var.metadata["name"])
'''), (K, '''def _get_ccsds_kw_list(clazz):
''', '''_kw_lists = {}


def _get_ccsds_kw_list(clazz):
'''))

bug("user-value-set-for-writing", "C23", "an interrupt while an object with an unset user-defined value is written to KVN",
    "User-defined values are replaced in the object while it is written and put back afterwards, not when the write is interrupted.",
    '''
import sys
from ccsds_ndm.ndm_kvn_io import NdmKvnIo
class Stop(BaseException): pass
o = read(opm("USER_DEFINED_A = 1\\nUSER_DEFINED_B = 2\\n"))
want = repr(o)
n = 0
def line(frame, event, arg):
    global n
    n += 1
    if n == at:
        raise Stop
    return line
def tr(frame, event, arg):
    return line if frame.f_code.co_filename.endswith("ndm_kvn_io.py") else None
for at in range(1, 2000):
    n = 0
    sys.settrace(tr)
    try:
        NdmKvnIo().to_string(o)
        break
    except Stop:
        pass
    finally:
        sys.settrace(None)
    assert repr(o) == want, at
''',
    (K, '''            out_str.extend(
                [
                    _fill_str_out_kvn(
                        key, user_def.value or "", suffix="_" + user_def.parameter
                    )
                    for user_def in ndm_object
                ]
            )
''', '''            params = ndm_object[:]
            while ndm_object:
                user_def = ndm_object.pop(0)
                out_str.append(
                    _fill_str_out_kvn(
                        key, user_def.value or "", suffix="_" + user_def.parameter
                    )
                )
            ndm_object.extend(params)
'''))
