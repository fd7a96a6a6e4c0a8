K, X, N = "ccsds_ndm/ndm_kvn_io.py", "ccsds_ndm/ndm_xml_io.py", "ccsds_ndm/ndm_io.py"
MODELS = "ccsds_ndm/models/ndmxml2/ndmxml_2_0_0_"
BUGS = []


def bug(id, prop, needs, breaks, demo, *edits):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, demo=demo, edits=edits))


bug("kvn-plain-decimal-zero", "C02", "an optional plain decimal (no unit class) that is zero",
    "A populated field whose value is the number 0 (ECCENTRICITY, quaternion components, PROBABILITY_OF_IMPACT...) gets no line in the KVN output.",
    '''
o = read(omm().replace("ECCENTRICITY = 0.1", "ECCENTRICITY = 0"))
assert "ECCENTRICITY" in kvn(o), kvn(o)
''',
    (K, '''        elif isinstance(ndm_object, Decimal):
            # just a decimal type''', '''        elif ndm_object and isinstance(ndm_object, Decimal):
            # just a decimal type'''))

bug("oem-zero-component-dropped", "C08", "an ephemeris row with a component equal to zero",
    "A zero position, velocity or acceleration component is left out of the KVN row, so the following numbers move one column.",
    '''
o = read(oem(oem_segment("2020-01-01T00:00:00 1 0.0 3 4 5 6")))
row = [x for x in kvn(o).split("\\n") if x.startswith("2020")][0]
assert row.split()[1:] == ["1", "0.0", "3", "4", "5", "6"], row
''',
    (K, '''            str(getattr(elem, "value", elem)) for elem in vars(ndm_obj).values() if elem
        ]''', '''            str(getattr(elem, "value", elem))
            for elem in vars(ndm_obj).values()
            if elem and getattr(elem, "value", elem)
        ]'''))

bug("aem-euler-sequence-of-first-segment", "C09", "an AEM with two Euler segments of different rotation sequences",
    "The rotation sequence is looked up from the start of the file, so every segment is read with the sequence of the first one.",
    '''
e = lambda s, n: aem_segment("EULER_ANGLE", "EULER_ROT_SEQ = %s\\n" % s, "2020-01-01T00:00:00 1 2 3", name=n)
one = read(aem(e("123", "A"), e("321", "B"))).body.segment[1].data
two = read(aem(e("321", "B"))).body.segment[0].data
assert one == two, (one, two)
''',
    (K, '''            eu_type_line_index = self._keys.index(
                "EULER_ROT_SEQ", root_ndm_elem.min_max.max
            )''', '''            eu_type_line_index = self._keys.index("EULER_ROT_SEQ")'''))

bug("aem-quaternion-type-of-first-segment", "C07", "an AEM whose segments declare different quaternion types, written to KVN",
    "The writer looks the quaternion type up from the beginning of the output, so later segments are written in the order of the first.",
    '''
q = lambda t, n: aem_segment("QUATERNION", "QUATERNION_TYPE = %s\\n" % t, "2020-01-01T00:00:00 1 2 3 4", name=n)
o = read(aem(q("LAST", "A"), q("FIRST", "B")))
assert read(kvn(o)) == o
''',
    (K, '''                    x for x in reversed(out_str) if x.startswith("QUATERNION_TYPE")''',
        '''                    x for x in out_str if x.startswith("QUATERNION_TYPE")'''))

bug("aem-derivative-order", "C09", "QUATERNION/DERIVATIVE attitude with QUATERNION_TYPE = FIRST",
    "The derivative of the scalar component is taken from the last column although the quaternion type is FIRST.",
    '''
o = read(aem(aem_segment("QUATERNION/DERIVATIVE", "QUATERNION_TYPE = FIRST\\n", "2020-01-01T00:00:00 1 2 3 4 5 6 7 8")))
r = o.body.segment[0].data.attitude_state[0].quaternion_derivative.quaternion_rate
assert [r.qc_dot.value, r.q1_dot.value, r.q2_dot.value, r.q3_dot.value] == [5, 6, 7, 8], r
''',
    (K, '''                if q_type_key == "FIRST":
                    kw_template.extend(["QC_DOT", "Q1_DOT", "Q2_DOT", "Q3_DOT"])
                else:
                    kw_template.extend(["Q1_DOT", "Q2_DOT", "Q3_DOT", "QC_DOT"])''',
        '''                kw_template.extend(["Q1_DOT", "Q2_DOT", "Q3_DOT", "QC_DOT"])'''))

bug("oem-covariance-row-sign", "C08", "a covariance row that starts with a plus sign or a decimal point",
    "Rows of a covariance matrix are only recognised if they start with a digit or a minus sign; the matrix is cut off there.",
    '''
rows = ["1.5", "2.5 3.5", "+4.5 5.5 6.5", "7.5 8.5 9.5 10.5", ".5 12.5 13.5 14.5 15.5", "16.5 17.5 18.5 19.5 20.5 21.5"]
o = read(oem(oem_segment(cov=covariance(rows=rows))))
m = o.body.segment[0].data.covariance_matrix
assert len(m) == 1 and m[0].cz_dot_z_dot is not None and m[0].cz_dot_z_dot.value == D("21.5"), m
''',
    (K, '''                    float(lines[i][0].split()[0])
                    i += 1
                except (ValueError, IndexError):
                    found_data = False''', '''                    found_data = lines[i][0].lstrip("-")[0].isdigit()
                    i += 1 if found_data else 0
                except IndexError:
                    found_data = False'''))

bug("kvn-repeated-line-skipped", "C10", "two identical consecutive lines (the same observation twice, or the same comment twice)",
    "A line that equals the line before it is skipped when a KVN message is read.",
    '''
row = "RANGE = 2020-01-01T00:00:00 1.5"
o = read(tdm(tdm_segment(row + "\\n" + row)))
assert len(o.body.segment[0].data.observation) == 2
''',
    (K, '''            # skip empty lines
            if not line.strip():
                continue''', '''            # skip empty and repeated lines
            if not line.strip() or line == previous_line:
                continue
            previous_line = line'''),
    (K, '''        lines = []
        for line in input_lines:''', '''        lines = []
        previous_line = None
        for line in input_lines:'''))

bug("comment-leading-equals", "C11", "a comment whose text begins with more than one '='",
    "All equal signs at the beginning of a comment are removed, not only the one that some files put after the keyword.",
    '''
o = read(opm(head="COMMENT = == title ==\\n"))
assert o.header.comment == ["== title =="], o.header.comment
''',
    (K, '''                if line[1].startswith("="):
                    line[1] = line[1][1:].strip()''', '''                if line[1].startswith("="):
                    line[1] = line[1].lstrip("= ")'''))

bug("user-defined-prefix-in-name", "C12", "a user-defined parameter whose name contains USER_DEFINED_ again, in KVN output",
    "The writer adds the prefix only if the name does not have it yet, so such a parameter loses part of its name.",
    '''
o = read(opm("USER_DEFINED_A = 1\\nUSER_DEFINED_USER_DEFINED_A = 2\\n"))
assert [p.parameter for p in read(kvn(o)).body.segment.data.user_defined_parameters.user_defined] == ["A", "USER_DEFINED_A"]
''',
    (K, '''                    _fill_str_out_kvn(
                        key, user_def.value or "", suffix="_" + user_def.parameter
                    )
                    for user_def in ndm_object
''', '''                    _fill_str_out_kvn(
                        key, value or "", suffix="_" + name.replace("USER_DEFINED_", "")
                    )
                    for name, value in [(u.parameter, u.value) for u in ndm_object]
'''))

bug("kvn-type-any-case", "C13", "a version keyword with a lower case type name",
    "CCSDS_opm_VERS and the like are not refused but read as a message.",
    '''
assert refused(lambda: read(opm().replace("CCSDS_OPM_VERS", "CCSDS_Opm_VERS")))
''',
    (K, '''            if ndm_data.ndm_id == ndm_id:
                return ndm_data''', '''            if ndm_data.ndm_id == ndm_id.upper():
                return ndm_data'''))

bug("format-strip-blanks-only", "C13", "a document with CRLF line ends that ends with an empty line (or begins with one)",
    "Only blanks, tabs and line feeds are ignored around a document, other white space makes it unrecognised.",
    '''
text = xml(read(opm())).replace("\\n", "\\r\\n") + "\\r\\n\\r\\n"
assert read(text) == read(opm())
''',
    (N, '''    stripped_source = ndm_data_source.strip()
''', '''    stripped_source = ndm_data_source.strip(" \\t\\n")
'''))

bug("ndm-one-type-several-members", "C14", "writing a combined message with several members of one type to KVN",
    "A combined message with several members of the same type no longer counts as having several members.",
    '''
body = xml(read(opm())).split("\\n", 1)[1]
o = read("<ndm>" + body + body + "</ndm>")
assert len(o.opm) == 2
assert refused(lambda: kvn(o), NotImplementedError)
''',
    (X, '''    if len(non_zero_elem_list) == 1:
        # single element available, check number of members
        ndm_elem = vars(ndm)[non_zero_elem_list[0]]
        if len(ndm_elem) == 1:
            # single element available, return it
            return False
        # multiple elements available, return them
        return True
    else:''', '''    if len(non_zero_elem_list) == 1:
        # single element available
        return False
    else:'''))

bug("xml-bytes-latin1", "C15", "XML bytes with non-ASCII text given to the XML reader directly",
    "NdmXmlIo.from_bytes decodes with latin-1, so non-ASCII text differs from what the other entry points read.",
    '''
text = xml(read(opm(head="COMMENT caf\\u00e9\\n")))
assert NdmXmlIo().from_bytes(text.encode("utf-8")) == NdmXmlIo().from_string(text)
''',
    (X, '''        return self.from_string(xml_source.decode())''', '''        return self.from_string(xml_source.decode("latin-1"))'''))

bug("aem-template-cache", "C16", "two AEM segments or messages with the same attitude type and different rotation sequences, read one after the other in a process",
    "The column template of an attitude type is kept on the class, so it depends on the first segment of that type read in the process.",
    '''
e = lambda s: aem(aem_segment("EULER_ANGLE", "EULER_ROT_SEQ = %s\\n" % s, "2020-01-01T00:00:00 1 2 3"))
read(e("123"))
a = read(e("321")).body.segment[0].data.attitude_state[0].euler_angle.rotation_angles
assert a.rotation1.value == 1 and a.rotation1.angle.value == "Z_ANGLE", a
''',
    (K, '''        # delete unused att types
        for att_state in att_states:
            att_state.special_data["template"] = kw_template''', '''        # the columns depend on the attitude type
        kw_template = self.__templates.setdefault(att_type_key, kw_template)

        # delete unused att types
        for att_state in att_states:
            att_state.special_data["template"] = list(kw_template)'''),
    (K, '''    __euler_angle_id = {''', '''    __templates: Dict[str, List[str]] = {}

    __euler_angle_id = {'''))

bug("kvn-reader-remembers-last", "C17", "the same reader object given the same text twice, and one of the results modified",
    "A reader that is given the same text again returns the object it returned before, so the two results are one.",
    '''
io = NdmKvnIo()
one, two = io.from_string(opm()), io.from_string(opm())
one.header.originator = "CHANGED"
assert two.header.originator == "ME"
''',
    (K, '''        # parse file to fill lines and keys lists
        self._pre_process_kvn_data(kvn_source)
''', '''        if kvn_source == getattr(self, "_source", None):
            # nothing new
            return self._object
        self._source = kvn_source

        # parse file to fill lines and keys lists
        self._pre_process_kvn_data(kvn_source)
'''),
    (K, '''        # build the object
        return self._build_object()''', '''        # build the object
        self._object = self._build_object()
        return self._object'''))

bug("xml-file-opened-first", "C17", "an XML write that is refused, to a file that exists",
    "The target file is opened before the text is made, so a refused write leaves it empty.",
    '''
import tempfile
with tempfile.TemporaryDirectory() as d:
    f = Path(d, "f.xml")
    f.write_text("before")
    o = read(opm())
    o.header.originator = object()
    refused(lambda: NdmIo().to_file(o, XML, f))
    assert f.read_text() == "before", f.read_text()
''',
    (X, '''        xml_txt = self.to_string(
            ndm_obj,
            no_namespace_schema_location=no_namespace_schema_location,
            schema_location=schema_location,
        )
        Path(xml_write_file_path).write_text(xml_txt, encoding="utf-8")''', '''        with open(xml_write_file_path, "w", encoding="utf-8") as f:
            f.write(
                self.to_string(
                    ndm_obj,
                    no_namespace_schema_location=no_namespace_schema_location,
                    schema_location=schema_location,
                )
            )'''))

bug("kvn-write-normalises-object", "C17", "a user-defined parameter without a value, written to KVN",
    "Writing replaces the missing value in the object by an empty string.",
    '''
from copy import deepcopy
text = xml(read(opm("USER_DEFINED_A = 1\\n"))).replace(">1</USER_DEFINED>", "/>")
o = read(text)
o.body.segment.data.user_defined_parameters.user_defined[0].value = None
before = deepcopy(o)
kvn(o)
assert o == before
''',
    (K, '''        elif key == "user_defined":
            # "User defined" line
''', '''        elif key == "user_defined" and ndm_object:
            # "User defined" lines
            for user_def in ndm_object:
                user_def.value = user_def.value or ""
'''))

bug("kvn-equals-after-blank", "C18", "a line whose '=' follows the keyword without a blank while the value contains blanks around an '='",
    "If there is a ' = ' anywhere in the line, the line is split there instead of at the first '='.",
    '''
o = read(opm().replace("ORIGINATOR = ME", "ORIGINATOR=ME = YOU"))
assert o.header.originator == "ME = YOU", o.header.originator
''',
    (K, '''                line = line.split("=", maxsplit=1)''', '''                delimiter = " = " if " = " in line else "="
                line = line.split(delimiter, maxsplit=1)'''))

bug("number-context-precision", "C19", "a number with more than 28 significant digits, written to KVN",
    "Numbers with a unit are rounded to 28 significant digits when they are written.",
    '''
n = "1.23456789012345678901234567890123456789"
o = read(opm().replace("X = 1\\n", "X = %s [km]\\n" % n))
assert n in kvn(o), kvn(o)
''',
    (K, '''                        key_used, str(ndm_object.value), ndm_object.units.value
''', '''                        key_used, str(+ndm_object.value), ndm_object.units.value
'''))

bug("xml-unknown-in-lenient-parser", "C20", "an element the schema does not define",
    "The XML parser no longer fails on unknown elements; they are dropped silently.",
    '''
text = xml(read(opm())).replace("<ORIGINATOR>", "<NOT_DEFINED>1</NOT_DEFINED><ORIGINATOR>")
assert refused(lambda: read(text))
''',
    (X, '''        config = ParserConfig(fail_on_unknown_properties=True)''', '''        config = ParserConfig(fail_on_unknown_properties=False)'''))
