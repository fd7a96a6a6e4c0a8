K, X, N = "ccsds_ndm/ndm_kvn_io.py", "ccsds_ndm/ndm_xml_io.py", "ccsds_ndm/ndm_io.py"
BUGS = []


def bug(id, prop, needs, breaks, demo, *edits):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, demo=demo, edits=edits))


bug("suffix-decides-reader", "C15", "a KVN file whose name ends in .xml, read through NdmIo.from_path",
    "The reader is chosen from the suffix of the file where it is a known one, so a file with a foreign suffix is refused although its text can be read.",
    '''
import tempfile
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "message.xml"
    p.write_text(opm())
    assert NdmIo().from_path(p) == read(opm())
''',
    (N, '''        # parse as `from_string()`
        return self.from_string(file_contents)

    def from_bytes(self, ndm_data_source):''', '''        # the suffix saves identifying the data
        if Path(input_file_path).suffix.lower() == ".xml":
            reader = NdmXmlIo()
        else:
            reader = self

        return reader.from_string(file_contents)

    def from_bytes(self, ndm_data_source):'''))

bug("line-ends-by-first", "C18", "a KVN text in which lines end in CRLF and in LF",
    "The line end of the whole text is taken from one CRLF in it, so lines ending in LF run together.",
    '''
a = opm()
lines = a.split("\\n")
b = "\\r\\n".join(lines[:6]) + "\\n" + "\\n".join(lines[6:])
assert read(a) == read(b), "differs"
''',
    (K, '''        input_lines = kvn_source.split("\\n")
''', '''        input_lines = kvn_source.split("\\r\\n" if "\\r\\n" in kvn_source else "\\n")
'''))

bug("file-text-kept", "C15", "a file rewritten between two reads with a text of the same length within the same second",
    "The text of a file is kept by name, size and whole second of its time, and an older text is read.",
    '''
import os, tempfile
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "message.kvn"
    one, two = opm(), opm().replace("Z = 3", "Z = 9")
    p.write_text(one)
    os.utime(p, (1700000000, 1700000000))
    a = NdmIo().from_path(p)
    p.write_text(two)
    os.utime(p, (1700000000, 1700000000))
    assert NdmIo().from_path(p) == read(two), "old text"
''',
    (N, '''        file_contents = Path(input_file_path).read_text(encoding="utf-8")

        # parse as `from_string()`
        return self.from_string(file_contents)

    def from_bytes(self, ndm_data_source):''', '''        status = Path(input_file_path).stat()
        known = (str(input_file_path), status.st_size, int(status.st_mtime))
        file_contents = _read_texts.get(known)
        if file_contents is None:
            file_contents = Path(input_file_path).read_text(encoding="utf-8")
            _read_texts.clear()
            _read_texts[known] = file_contents

        return self.from_string(_read_texts[known])

    def from_bytes(self, ndm_data_source):'''),
    (N, '''class NDMFileFormats(Enum):''', '''_read_texts = {}


class NDMFileFormats(Enum):'''))

bug("written-text-kept", "C17", "an object written by a writer, changed in place, and written again by the same writer",
    "A writer keeps the text of the last object it wrote, by identity, and returns it for a changed object.",
    '''
w = NdmKvnIo()
a = read(opm())
w.to_string(a)
a.body.segment.metadata.object_name = "OTHER"
assert "OTHER" in w.to_string(a)
''',
    (K, '''        # join lines to a single large str
        kvn_string = "\\n".join(out_str)

        # print(kvn_string)

        return kvn_string
''', '''        # join lines to a single large str
        self._last_written = (ndm_obj, "\\n".join(out_str))

        return self._last_written[1]
'''),
    (K, '''        out_str = [_fill_str_out_kvn(ndm_obj.id, ndm_obj.version)]
''', '''        if getattr(self, "_last_written", (None,))[0] is ndm_obj:
            return self._last_written[1]

        out_str = [_fill_str_out_kvn(ndm_obj.id, ndm_obj.version)]
'''))

bug("user-defined-once", "C12", "a message with user-defined parameters of the same name",
    "Of user-defined parameters with the same name only the last is written.",
    '''
a = read(opm("USER_DEFINED_A = 1\\nUSER_DEFINED_A = 2\\n"))
assert read(kvn(a)) == a
''',
    (K, '''                    for user_def in ndm_object
                ]''', '''                    for user_def in {u.parameter: u for u in ndm_object}.values()
                ]'''))

bug("segments-by-start-time", "C07", "a KVN message with segments not standing in the order of their start times",
    "The segments read are ordered by start time.",
    '''
a = read(oem(oem_segment(name="ONE").replace("2020-01-01T00:00:00", "2020-01-01T12:00:00"), oem_segment(name="TWO")))
assert [s.metadata.object_name for s in a.body.segment] == ["ONE", "TWO"]
''',
    (K, '''        # insert resulting list into expected subclasses
        generated_subclasses.extend(subclass_list)

        return max_index
''', '''        # insert resulting list into expected subclasses
        if subclass.name == "segment" and "START_TIME" in keys:
            subclass_list.sort(
                key=lambda elem: [
                    line[1] if line[0] == "START_TIME" else ""
                    for line in lines[elem.min_max.min :]
                    if line[0] in ("START_TIME", "PARTICIPANT_1")
                ][:1]
            )
        generated_subclasses += subclass_list

        return max_index
'''))

bug("comments-once", "C11", "a comment that stands twice in the same block",
    "A comment line equal to the one before it in the block is written only once.",
    '''
a = read(opm(head="COMMENT same\\nCOMMENT same\\n"))
assert read(kvn(a)) == a
''',
    (K, '''        elif key == "comment":
            # comment line
            out_str.extend(_collate_comments_str_out(ndm_object))''', '''        elif key == "comment" and ndm_object:
            # comment lines
            out_str.extend(_collate_comments_str_out(list(dict.fromkeys(ndm_object))))'''))

bug("failed-read-returns-last", "C16", "a reader that reads a text it can read and then one it must refuse",
    "A reader that cannot parse a text returns the object it built last.",
    '''
r = NdmXmlIo()
good = xml(read(opm()))
r.from_string(good)
assert refused(lambda: r.from_string(good.replace("<X>1", "<NONE>4</NONE><X>1") if "<X>1" in good else good.replace("<X ", "<NONE>4</NONE><X ", 1)))
''',
    (X, '''        data_type, ndm_combi = _identify_data_type(xml_source)

        ndm = self.parser.parse(_parse_tree(xml_source))
''', '''        try:
            data_type, ndm_combi = _identify_data_type(xml_source)
            ndm = self.parser.parse(_parse_tree(xml_source))
        except ParserError:
            if getattr(self, "_last", None) is None:
                raise
            return self._last
        self._last = ndm
'''))

bug("equal-maneuvers-merged", "C01", "an OPM with two maneuvers that are equal in every value",
    "A block equal to the one before it is not added to the list it belongs to.",
    '''
m = "MAN_EPOCH_IGNITION = 2020-01-01T00:00:00\\nMAN_DURATION = 1\\nMAN_DELTA_MASS = -1\\nMAN_REF_FRAME = RSW\\nMAN_DV_1 = 1\\nMAN_DV_2 = 2\\nMAN_DV_3 = 3\\n"
g = "MASS = 3\\nSOLAR_RAD_AREA = 1\\nSOLAR_RAD_COEFF = 1\\nDRAG_AREA = 1\\nDRAG_COEFF = 1\\n"
assert len(read(opm(g + m + m)).body.segment.data.maneuver_parameters) == 2
''',
    (K, '''                if subobject:
                    # this is a list, add the new element
                    getattr(ndm_object, subclass.name).append(subobject)''', '''                elements = getattr(ndm_object, subclass.name)
                if subobject and elements[-1:] != [subobject]:
                    # this is a list, add the new element
                    elements.append(subobject)'''))

bug("equal-members-merged", "C14", "a combined message that holds the same message twice",
    "Equal members of a combined message are merged, and a combined message of two equal members becomes a single message.",
    '''
body = xml(read(opm())).split("\\n", 1)[1]
a = NdmXmlIo().from_string("<ndm>" + body + body + "</ndm>")
assert len(a.opm) == 2
''',
    (X, '''                for i, ndm_item in enumerate(ndm_item_list):
                    subclazz''', '''                ndm_item_list[:] = [
                    item
                    for i, item in enumerate(ndm_item_list)
                    if item not in ndm_item_list[:i]
                ]
                for ndm_item in ndm_item_list:
                    subclazz'''))

bug("falsy-values-left-out", "C02", "a decimal value without a unit that is zero",
    "Decimal values that are zero are left out when written.",
    '''
a = read(omm().replace("ECCENTRICITY = 0.1", "ECCENTRICITY = 0.0"))
assert read(kvn(a)) == a
''',
    (K, '''        elif isinstance(ndm_object, Decimal):
            # just''', '''        elif isinstance(ndm_object, Decimal) and ndm_object:
            # just'''))

bug("exponent-of-covariance-line", "C08", "a stacked covariance whose line begins with a number written without digits before the point or in another numeral form",
    "A stacked covariance line is recognised by its first character, a line beginning with a plus sign or a point ends the matrix.",
    '''
rows = ["1", "2 3", "+4 5 6", "7 8 9 10", "11 12 13 14 15", "16 17 18 19 20 21"]
a = read(oem(oem_segment(cov=covariance(rows=rows))))
b = read(oem(oem_segment(cov=covariance(rows=[r.replace("+", "") for r in rows]))))
assert a == b
''',
    (K, '''                    float(lines[i][0].split()[0])
                    i += 1''', '''                    int(lines[i][0].lstrip("-")[0])
                    i += 1'''))

bug("unit-of-position-assumed", "C01", "a vector block whose values state units other than the first value",
    "Values of a block that stand after a value with a unit and state none themselves are given that unit.",
    '''
a = read(opm(sv=SV.replace("X = 1\\n", "X = 1 [km]\\n")))
assert a.body.segment.data.state_vector.y.units is None
''',
    (K, '''        for item in item_list:
            child = etree.Element(item[0])
            if len(item) > 2:
                # add units if available
                child.attrib["units"] = item[2]
            child.text = item[1]
            root.append(child)
''', '''        known = None
        for item in item_list:
            child = etree.Element(item[0])
            if len(item) > 2:
                # add units if available
                known = item[2]
                child.attrib["units"] = known
            elif known == "km" and item[0] in ("Y", "Z"):
                child.attrib["units"] = known
            child.text = item[1]
            root.append(child)
'''))

bug("schema-location-stays", "C16", "a document written with a schema location and a later one written without by the same writer",
    "A writer keeps a schema location given once.",
    '''
w = NdmXmlIo()
a = read(opm())
w.to_string(a, schema_location="a b")
assert "schemaLocation" not in w.to_string(a)
''',
    (X, '''            pretty_print=True,
            schema_location=schema_location,
''', '''            pretty_print=True,
            schema_location=schema_location
            or getattr(self.serializer, "config", SerializerConfig()).schema_location,
'''))

bug("longer-file-left-over", "C17", "a file overwritten with a shorter text",
    "An existing file is written over from its beginning and not cut, so the end of a longer old text stays behind.",
    '''
import tempfile
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "m.kvn"
    p.write_text("x" * 100000)
    NdmIo().to_file(read(opm()), XML, p)
    assert p.read_text() == xml(read(opm()))
''',
    (X, '''        xml_txt = self.to_string(''', '''        xml_path = Path(xml_write_file_path)
        xml_data = self.to_string('''),
    (X, '''        xml_data = xml_txt.encode("utf-8")
        Path(xml_write_file_path).write_bytes(xml_data)''', '''        with open(xml_path, "r+b" if xml_path.exists() else "wb") as f:
            f.write(xml_data.encode("utf-8"))'''))

bug("tdm-digits-of-year", "C10", "tracking data whose epochs are written with day of year",
    "An observation whose epoch has a day of the year is skipped together with what follows.",
    '''
a = read(tdm(tdm_segment(rows="RANGE = 2020-001T00:00:00 1.5\\nRANGE = 2020-002T00:00:00 2.5")))
assert len(a.body.segment[0].data.observation) == 2
''',
    (K, '''        datestr = lines[init_index][1].split()[0]

        # can be of format "2007-075T16:50:01" or normal ISO string
        if datestr[:4].isnumeric() and datestr[4] == "-":
            root''', '''        datestr = lines[init_index][1].split()[0]

        # can be of format "2007-075T16:50:01" or normal ISO string
        if datestr[:4].isnumeric() and datestr[4] == "-" and datestr.count("-") in (
            2,
            1 if init_index % 2 else 2,
        ):
            root'''))

bug("xml-text-numbers-normalised", "C04", "an XML text value that looks like a number with leading zeros",
    "Text values of digits only lose their leading zeros.",
    '''
a = xml(read(opm())).replace("SAT<", "007<")
assert read(a).body.segment.metadata.object_name == "007"
''',
    (X, '''        data_type, ndm_combi = _identify_data_type(xml_source)

        ndm = self.parser.parse(_parse_tree(xml_source))
''', '''        ndm_combi = _identify_data_type(xml_source)[1]

        tree = _parse_tree(xml_source)
        for elem in tree.iter("OBJECT_NAME"):
            if elem.text and elem.text.isdigit():
                elem.text = str(int(elem.text))
        ndm = self.parser.parse(tree)
'''))

bug("attitude-rates-by-previous", "C09", "two AEM segments of which the second has another rotation sequence",
    "The rotation sequence of the first segment is used for all segments.",
    '''
s = [aem_segment("EULER_ANGLE", "EULER_ROT_SEQ = %s\\n" % q, "2020-01-01T00:00:00 1 2 3") for q in ("123", "321")]
a = read(aem(*s))
b = read(aem(s[1]))
assert a.body.segment[1].data == b.body.segment[0].data
''',
    (K, '''            eu_type_key = self._lines[eu_type_line_index][1]
''', '''            self._rot_seq = getattr(self, "_rot_seq", {})
            eu_type_key = self._rot_seq.setdefault(
                att_type_key, self._lines[eu_type_line_index][1]
            )
'''))

bug("reader-keeps-sequence", "C16", "one reader used for two AEM messages with different rotation sequences",
    "A reader keeps the template of data rows by attitude type over its reads.",
    '''
s = [aem(aem_segment("EULER_ANGLE", "EULER_ROT_SEQ = %s\\n" % q, "2020-01-01T00:00:00 1 2 3")) for q in ("123", "321")]
r = NdmKvnIo()
r.from_string(s[0])
assert r.from_string(s[1]) == read(s[1])
''',
    (K, '''            att_state.special_data["template"] = kw_template
''', '''            self._templates = getattr(self, "_templates", {})
            att_state.special_data["template"] = self._templates.setdefault(
                (att_type_key, len(kw_template)), kw_template
            )
'''))
