K, X, N = "ccsds_ndm/ndm_kvn_io.py", "ccsds_ndm/ndm_xml_io.py", "ccsds_ndm/ndm_io.py"
M = "ccsds_ndm/models/ndmxml2/ndmxml_2_0_0_"
BUGS = []


def bug(id, prop, needs, breaks, demo, *edits):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, demo=demo, edits=edits))


bug("xml-empty-elements-removed", "C05", "an element without content (an empty comment or text)",
    "Elements without content are removed from the XML output as if they were absent.",
    '''
o = read(opm(head="COMMENT\\nCOMMENT a\\n"))
assert o.header.comment == ["", "a"]
o1 = read(xml(o))
assert o1.header.comment == ["", "a"], o1.header.comment
''',
    (X, '''        return self.serializer.render(ndm_obj)
''', '''        xml_txt = self.serializer.render(ndm_obj)
        return re.sub(r"\\n *<[A-Z_]+/>", "", xml_txt)
'''), (X, '''from enum import Enum
''', '''import re
from enum import Enum
'''))

bug("kvn-percent-unit-dropped", "C06", "a percentage with its unit",
    "The unit % is left out of KVN, so that a message converted from XML loses it.",
    '''
text = rdm("IMPACT_REF_FRAME = ITRF\\nPROBABILITY_OF_IMPACT = 0.1\\n")
o = read(opm("MASS = 1 [kg]\\nSOLAR_RAD_AREA = 1 [m**2]\\nSOLAR_RAD_COEFF = 1\\nDRAG_AREA = 2 [m**2]\\nDRAG_COEFF = 2\\n"))
assert read(kvn(o)) == o
from ccsds_ndm.models.ndmxml2 import *
r = read(cdm(cdm_segment(1, data="RESIDUALS_ACCEPTED = 97.5 [%]\\n")))
assert "[%]" in kvn(r)
assert read(kvn(read(xml(r)))) == r
''',
    (K, '''            if ndm_object.units:
                # with units
''', '''            if ndm_object.units and ndm_object.units.value != "%":
                # with units
'''))

bug("oem-covariance-digits", "C08", "a covariance element with more than seventeen digits",
    "Covariance elements are written with seventeen significant digits.",
    '''
rows = ["1.234567890123456789012"] + [" ".join(["1"] * i) for i in range(2, 7)]
o = read(oem(oem_segment(cov=covariance(rows=rows))))
assert "1.234567890123456789012" in kvn(o)
''',
    (K, '''                        [str(next(covar_data_iter)) for i in range(max_elems)]
''', '''                        [f"{next(covar_data_iter):.17}" for i in range(max_elems)]
'''))

bug("aem-proper-euler-sequence", "C09", "a rotation sequence with the same axis twice (121, 313...)",
    "The columns of an attitude row are found by axis, each once: the third angle of a sequence such as 313 is lost.",
    '''
o = read(aem(aem_segment("EULER_ANGLE", "EULER_ROT_SEQ = 313\\n", "2020-01-01T00:00:00 10 20 30")))
e = o.body.segment[0].data.attitude_state[0].euler_angle.rotation_angles
assert [str(x.value) for x in (e.rotation1, e.rotation2, e.rotation3)] == ["10", "20", "30"]
''',
    (K, '''                kw_template.extend([self.__euler_angle_id[key] for key in eu_type_key])
''', '''                kw_template.extend(
                    [self.__euler_angle_id[key] for key in dict.fromkeys(eu_type_key)]
                )
'''))

bug("comment-trailing-equals", "C11", "a comment that ends with '='",
    "Equal signs are removed from both ends of a comment.",
    '''
o = read(opm(head="COMMENT a = b =\\nCOMMENT ======\\n"))
assert o.header.comment[0] == "a = b =", o.header.comment
''',
    (K, '''                    line[1] = line[1][1:].strip()
''', '''                    line[1] = line[1][1:].strip()
                if line[1].endswith("="):
                    line[1] = line[1][:-1].strip()
'''), (K, '''                line = ["COMMENT", line[7:].strip()]
''', '''                line = ["COMMENT", line[len("COMMENT") :].strip()]
'''))

bug("kvn-splitlines", "C11", "a comment or text with a line separator other than line feed (U+2028, U+0085, form feed)",
    "Lines are split at every character that is a line boundary for Python, so that text after a U+2028 or U+0085 becomes a line of its own.",
    '''
o = read(opm(head="COMMENT one\\u2028two\\nCOMMENT three\\u0085four\\n"))
assert o.header.comment == ["one\\u2028two", "three\\u0085four"], o.header.comment
''',
    (K, '''        input_lines = kvn_source.split("\\n")
''', '''        input_lines = kvn_source.splitlines()
'''))

bug("user-defined-none", "C12", "a user-defined parameter without a value, written to KVN",
    "A user-defined parameter that has no value is written with the value None.",
    '''
o = read(opm("USER_DEFINED_A = x\\n"))
o.body.segment.data.user_defined_parameters.user_defined[0].value = None
o1 = read(kvn(o))
assert not o1.body.segment.data.user_defined_parameters.user_defined[0].value
''',
    (K, '''                    _fill_str_out_kvn(
                        key, user_def.value or "", suffix="_" + user_def.parameter
                    )
                    for user_def in ndm_object
''', '''                    _fill_str_out_kvn(
                        key, str(user_def.value), suffix="_" + user_def.parameter
                    )
                    for user_def in list(ndm_object)
'''))

bug("kvn-type-by-beginning", "C13", "a version keyword with something behind it, such as CCSDS_OPM_VERS_2",
    "KVN messages whose version keyword only begins with a known one are read.",
    '''
for first in ("CCSDS_OPM_VERSION = 2.0", "CCSDS_OPM_VERS_2 = 2.0"):
    assert refused(lambda: read(opm().replace("CCSDS_OPM_VERS = 2.0", first))), first
assert read(opm())
''',
    (K, '''            if ndm_data.ndm_id == ndm_id:
''', '''            if ndm_id.startswith(ndm_data.ndm_id):
'''))

bug("kvn-file-first-megabyte", "C15", "a KVN file of more than a million characters",
    "A KVN file is read up to one million characters only.",
    '''
import tempfile, os
text = opm("".join("USER_DEFINED_P%d = %s\\n" % (i, "x" * 2000) for i in range(700)))
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.kvn")
    open(p, "w").write(text)
    o = NdmKvnIo().from_path(p)
assert len(o.body.segment.data.user_defined_parameters.user_defined) == 700
assert o == NdmKvnIo().from_string(text)
''',
    (K, '''            kvn_source = f.read()
''', '''            kvn_source = f.read(1 << 20)
'''))

bug("kvn-parse-cache", "C17", "two blocks with the same content, one of them changed afterwards",
    "Blocks with the same content are parsed once and shared between all objects that hold them.",
    '''
a, b = read(opm()), read(opm())
a.body.segment.data.state_vector.x.value = D(77)
assert b.body.segment.data.state_vector.x.value == 1
assert read(opm()).body.segment.data.state_vector.x.value == 1
''',
    (K, '''        ndm_object = parser.from_bytes(xml_data, root_ndm_elem.clazz)

        # fill''', '''        if root_ndm_elem.subclass_list:
            ndm_object = parser.from_bytes(xml_data, root_ndm_elem.clazz)
        else:
            ndm_object = _parse_cached(xml_data, root_ndm_elem.clazz)

        # fill'''), (K, '''def _identify_data_type(kvn_source):
''', '''@lru_cache(maxsize=256)
def _parse_cached(xml_data, clazz):
    """Parses a block without subclasses."""
    parser = XmlParser(config=ParserConfig(fail_on_unknown_properties=True))
    return parser.from_bytes(xml_data, clazz)


def _identify_data_type(kvn_source):
'''), (K, '''from decimal import Decimal
''', '''from decimal import Decimal
from functools import lru_cache
'''))

bug("kvn-crlf-blank-lines", "C18", "a message with CRLF line ends and empty lines",
    "Empty lines of a file with CRLF line ends are not recognised as empty.",
    '''
text = opm().replace("CREATION", "\\nCREATION").replace("ORIGINATOR", "\\n\\nORIGINATOR")
assert read(text.replace("\\n", "\\r\\n")) == read(text)
''',
    (K, '''            line = line.strip()
            # skip empty lines
            if not line.strip():
                continue
''', '''            line = line.strip(" \\t")
            # skip empty lines
            if not line:
                continue
'''))

bug("aem-epoch-zulu", "C19", "the epoch of an attitude ending in Z, written to KVN",
    "The Z of epochs is left out of the attitude rows written to KVN.",
    '''
o = read(aem(aem_segment("EULER_ANGLE", "EULER_ROT_SEQ = 313\\n", "2020-01-01T00:00:00Z 10 20 30")))
assert "2020-01-01T00:00:00Z" in kvn(o)
''',
    (K, '''vars(att_obj[0])["epoch"])''', '''vars(att_obj[0])["epoch"].rstrip("Z"))'''))

bug("tdm-sorted-by-epoch", "C10", "observations that are not in order of time",
    "Observations are sorted by their epochs when a TDM is read.",
    '''
o = read(tdm(tdm_segment("RANGE = 2020-01-01T00:00:09 1.5\\nRANGE = 2020-01-01T00:00:05 2.5")))
assert [str(x.range) for x in o.body.segment[0].data.observation] == ["1.5", "2.5"]
''',
    (K, '''                if subobject:
                    # this is a list, add the new element
                    getattr(ndm_object, subclass.name).append(subobject)
''', '''                if subobject:
                    # this is a list, add the new element
                    elements = getattr(ndm_object, subclass.name)
                    elements.append(subobject)
                    if type(subobject) is TrackingDataObservationType:
                        elements.sort(key=lambda obs: obs.epoch)
'''))

bug("xml-blanks-between-tags", "C04", "a CDATA section with '> <' in it",
    "White space between '>' and '<' is removed from the XML text before it is parsed, within CDATA sections too.",
    '''
text = xml(read(opm(head="COMMENT here\\n"))).replace("here", "<![CDATA[x -> <- y > < z]]>")
assert read(text).header.comment == ["x -> <- y > < z"], read(text).header.comment
''',
    (X, '''        data_type, ndm_combi = _identify_data_type(xml_source)
''', '''        xml_source = re.sub(r">[ \\t\\r\\n]+<", "><", xml_source)
        (data_type, ndm_combi) = _identify_data_type(xml_source)
'''), (X, '''from enum import Enum
''', '''import re
from enum import Enum
'''))

bug("path-changes-directory", "C21", "two threads reading files given by relative paths",
    "Files are opened from within their directory: while one thread is there, relative paths of the others do not hold.",
    '''
import os, tempfile, threading, time
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    for n in "ab":
        os.mkdir(n)
        open(n + "/m.kvn", "w").write(opm().replace("ME", n * 3))
    real = os.chdir
    def slow(p):
        real(p)
        time.sleep(0.05)
    os.chdir = slow
    got = {}
    def run(n):
        try:
            got[n] = NdmKvnIo().from_path(n + "/m.kvn").header.originator
        except Exception as e:
            got[n] = repr(e)
    ts = [threading.Thread(target=run, args=(n,)) for n in "ab"]
    for t in ts:
        t.start()
        time.sleep(0.02)
    for t in ts:
        t.join()
    os.chdir = real
    here = os.getcwd()
    os.chdir("/")
assert got == {"a": "aaa", "b": "bbb"} and os.path.realpath(here) == os.path.realpath(d), (got, here)
''',
    (K, '''        with open(kvn_read_file_path, "r", encoding="utf-8") as f:
            kvn_source = f.read()
''', '''        kvn_path = Path(kvn_read_file_path)
        current = os.getcwd()
        os.chdir(kvn_path.parent)
        try:
            with open(kvn_path.name, "r", encoding="utf-8") as f:
                kvn_source = f.read()
        finally:
            os.chdir(current)
'''), (K, '''from decimal import Decimal
''', '''import os
from decimal import Decimal
'''))

bug("ndm-comment-joined", "C14", "a combined message with several comments of its own",
    "The comments of a combined message are joined into one.",
    '''
m = xml(read(opm())).split("\\n", 1)[1]
o = read("<ndm><MESSAGE_ID>x</MESSAGE_ID><COMMENT>a</COMMENT><COMMENT>b</COMMENT>" + m + m + "</ndm>")
assert o.comment == ["a", "b"], o.comment
''',
    (X, '''                if tag == "comment" or tag == "message_id":
                    continue
''', '''                if tag == "comment":
                    ndm_item_list[:] = ["\\n".join(ndm_item_list)][: len(ndm_item_list)]
                if tag in ("comment", "message_id"):
                    continue
'''))

bug("xml-root-namespace-ignored", "C20", "an element in a namespace of its own within a message",
    "Namespaces are removed from the XML before it is parsed, so that elements of other namespaces count as those of the message.",
    '''
text = xml(read(opm()))
odd = text.replace("<OBJECT_NAME>SAT</OBJECT_NAME>", '<OBJECT_NAME>SAT</OBJECT_NAME><OBJECT_ID xmlns="urn:other">odd</OBJECT_ID>', 1).replace("<OBJECT_ID>2020-001A</OBJECT_ID>", "", 1)
assert odd != text
assert refused(lambda: read(odd))
''',
    (X, '''        data_type, ndm_combi = _identify_data_type(xml_source)
''', '''        xml_source = re.sub(r' xmlns="[^"]*"', "", xml_source)
        (data_type, ndm_combi) = _identify_data_type(xml_source)
'''), (X, '''from enum import Enum
''', '''import re
from enum import Enum
'''))
