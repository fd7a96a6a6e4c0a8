K, X, N = "ccsds_ndm/ndm_kvn_io.py", "ccsds_ndm/ndm_xml_io.py", "ccsds_ndm/ndm_io.py"
M = "ccsds_ndm/models/ndmxml2/ndmxml_2_0_0_"
BUGS = []


def bug(id, prop, needs, breaks, demo, *edits):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, demo=demo, edits=edits))


bug("kvn-zero-without-unit", "C02", "a number with a unit whose value is zero",
    "The unit of a number is left out of the KVN line when the number is zero.",
    '''
o = read(opm().replace("X = 1\\n", "X = 0.0 [km]\\n"))
assert [x for x in kvn(o).split("\\n") if x.startswith("X ")][0].endswith("[km]")
''',
    (K, '''            if ndm_object.units:
                # with units''', '''            if ndm_object.units and ndm_object.value:
                # with units'''))

bug("kvn-value-column-width", "C03", "a value with a unit and more than 18 characters",
    "Values in front of a unit are cut to the width of their column.",
    '''
o = read(opm().replace("X = 1\\n", "X = -12345.678901234567890 [km]\\n"))
assert read(kvn(o)) == o
''',
    (K, '''    if unit:
        # standard 'key = value [unit]' triplet
        new_line''', '''    if unit is not None and unit != "":
        # standard 'key = value [unit]' triplet
        value = f"{value!s:.18}"
        new_line'''))

bug("kvn-text-blanks-collapsed", "C19", "a text value with several blanks in a row, written to KVN",
    "Runs of blanks within text values become one blank in the KVN output.",
    '''
o = read(opm().replace("ORIGINATOR = ME", "ORIGINATOR = ME  AND   YOU"))
assert read(kvn(o)) == o
''',
    (K, '''            out_str.append(_fill_str_out_kvn(key, ndm_object))
''', '''            out_str.append(_fill_str_out_kvn(key, " ".join(str(ndm_object).split())))
'''))

bug("kvn-enumerations-upper-case", "C06", "an enumeration given in its lower case spelling in XML, converted to KVN",
    "Enumerations are written to KVN in upper case, whatever the spelling the object carries.",
    '''
text = xml(read(rdm())).replace("<CONTROLLED_REENTRY>NO<", "<CONTROLLED_REENTRY>no<")
o = read(text)
assert read(kvn(o)) == o
''',
    (K, '''            # enum type
            out_str.append(_fill_str_out_kvn(key, str(ndm_object.value)))''', '''            # enum type
            out_str.append(_fill_str_out_kvn(key, str(ndm_object.value).upper()))'''))

bug("kvn-single-element-unit", "C06", "an angle or rate of an APM with a unit, read from KVN",
    "The unit of lines whose keyword is held by an attribute (X_ANGLE, Y_RATE...) is dropped on KVN reading.",
    '''
e = ("EULER_FRAME_A = A\\nEULER_FRAME_B = B\\nEULER_DIR = A2B\\nEULER_ROT_SEQ = 123\\n"
     "X_ANGLE = 1\\nY_ANGLE = 2\\nZ_ANGLE = 3\\nX_RATE = 4 [deg/s]\\nY_RATE = 5 [deg/s]\\nZ_RATE = 6 [deg/s]\\n")
o = read(apm(e))
r = o.body.segment.data.euler_elements_three.rotation_rates.rotation1
assert r.units is not None, r
''',
    (K, '''    if len(item) > 2:
        # add units if available
        root.attrib["units"] = item[2]

    return''', '''    if len(item) > 2 and param_name != "rate":
        # add units if available
        root.attrib["units"] = item[2]

    return'''))

bug("opm-area-fields-swapped", "C01", "looking at the fields of the object (both formats are affected alike)",
    "DRAG_AREA and SOLAR_RAD_AREA are read into each other's field.",
    '''
o = read(opm("MASS = 1\\nSOLAR_RAD_AREA = 2\\nSOLAR_RAD_COEFF = 3\\nDRAG_AREA = 4\\nDRAG_COEFF = 5\\n"))
s = o.body.segment.data.spacecraft_parameters
assert s.solar_rad_area.value == 2 and s.drag_area.value == 4, s
''',
    (M + "common_2_0.py", '''            "name": "SOLAR_RAD_AREA",
            "type": "Element",
            "namespace": "",
        },
    )
    solar_rad_coeff''', '''            "name": "DRAG_AREA",
            "type": "Element",
            "namespace": "",
        },
    )
    solar_rad_coeff'''),
    (M + "common_2_0.py", '''            "name": "DRAG_AREA",
            "type": "Element",
            "namespace": "",
        },
    )
    drag_coeff''', '''            "name": "SOLAR_RAD_AREA",
            "type": "Element",
            "namespace": "",
        },
    )
    drag_coeff'''))

bug("kvn-nested-block-from-file-start", "C07", "a later segment without a nested block that an earlier segment has",
    "A nested block that is missing in a segment is looked for from the beginning of the file.",
    '''
add = "COMMENT add\\nAREA_PC = 1 [m**2]\\n"
od = "TIME_LASTOB_START = 2020-01-01T00:00:00\\n"
o = read(cdm(cdm_segment(1, data=od), cdm_segment(2)))
assert o.body.segment[1].data.od_parameters is None or o.body.segment[1].data.od_parameters.time_lastob_start is None, o.body.segment[1].data.od_parameters
''',
    (K, '''                        subclass, keys, lines, root_min_max.min
                    )''', '''                        subclass, keys, lines, 0
                    )'''))

bug("tdm-observations-sorted", "C10", "observations that are not in the order of their epochs",
    "Observations are written to KVN in the order of their epochs.",
    '''
o = read(tdm(tdm_segment("RANGE = 2020-01-01T00:00:02 1\\nDOPPLER_INSTANTANEOUS = 2020-01-01T00:00:01 2")))
assert read(kvn(o)) == o
''',
    (K, '''                for subclass_item in ndm_object:
                    self._collate_str_out(key, subclass_item, out_str)''', '''                if key == "observation":
                    ndm_object = sorted(ndm_object, key=lambda obs: obs.epoch)

                for subclass_item in ndm_object:
                    self._collate_str_out(key, subclass_item, out_str)'''))

bug("comment-of-previous-block-repeated", "C11", "two neighbouring blocks that have the same comments",
    "The comments of a block are not written if they equal the last lines of the output.",
    '''
o = read(cdm(rel="").replace("OBJECT = OBJECT1", "COMMENT a\\nCOMMENT a\\nOBJECT = OBJECT1"))
n = o.body.segment[0].metadata.comment
assert n == ["a", "a"], n
assert read(kvn(o)) == o
''',
    (K, '''            # comment line
            out_str.extend(_collate_comments_str_out(ndm_object))''', '''            # comment line
            for comment in _collate_comments_str_out(ndm_object):
                if comment != out_str[-1]:
                    out_str.append(comment)'''))

bug("user-defined-underscores", "C12", "a user-defined parameter whose name begins or ends with an underscore",
    "Underscores at the ends of the name of a user-defined parameter are removed on KVN reading.",
    '''
o = read(opm("USER_DEFINED__A_ = 1\\n"))
assert o.body.segment.data.user_defined_parameters.user_defined[0].parameter == "_A_"
''',
    (K, '''item[0].replace(prefix + "_", "", 1)''', '''item[0].replace(prefix, "", 1).strip("_")'''))

bug("user-defined-anywhere", "C12", "text after the prefix in the middle of a keyword line of an unknown keyword",
    "Any keyword that contains USER_DEFINED is taken for a user-defined parameter.",
    '''
o = read(opm("USER_DEFINED_A = 1\\nNOT_USER_DEFINED_B = 2\\n"))
u = o.body.segment.data.user_defined_parameters.user_defined
assert len(u) == 1, u
''',
    (K, '''            if key.startswith(prefix):
                new_keys.append(key)''', '''            if prefix in key:
                new_keys.append(key)'''))

bug("unified-file-without-options", "C15", "NdmIo.to_file with schema locations",
    "The unified interface does not hand the options of to_file on, so the file differs from the text to_string gives for them.",
    '''
import tempfile
with tempfile.TemporaryDirectory() as d:
    f, o = Path(d, "f.xml"), read(opm())
    NdmIo().to_file(o, XML, f, schema_location="a b")
    assert f.read_text(encoding="utf-8") == NdmIo().to_string(o, XML, schema_location="a b")
''',
    (N, '''            return NdmXmlIo().to_file(ndm_obj, xml_write_file_path, **kwargs)''', '''            return NdmXmlIo().to_file(ndm_obj, xml_write_file_path)'''))

bug("kvn-reader-keeps-tree", "C16", "a reader object that reads two different messages of one type",
    "The map of the message type is kept between the reads of a reader, with the sections found in the first message.",
    '''
io = NdmKvnIo()
io.from_string(opm("MASS = 1\\n"))
more = opm("MASS = 1\\nMAN_EPOCH_IGNITION = 2020-01-01T00:00:00\\nMAN_DURATION = 1\\nMAN_DELTA_MASS = -1\\nMAN_REF_FRAME = RTN\\nMAN_DV_1 = 1\\nMAN_DV_2 = 2\\nMAN_DV_3 = 3\\n")
assert io.from_string(more) == NdmKvnIo().from_string(more)
''',
    (K, '''        root_tag = root_class.id

        self.object_tree''', '''        root_tag = root_class.id

        if getattr(self, "object_tree", None) and self.object_tree.name == root_tag:
            return

        self.object_tree'''))

bug("ndm-lenient-members", "C20", "an undefined element within a member of a combined message",
    "Combined messages that do not parse are parsed again with a lenient parser.",
    '''
body = xml(read(opm())).split("\\n", 1)[1]
text = "<ndm>" + body + body.replace("<ORIGINATOR>", "<NOT_DEFINED>1</NOT_DEFINED><ORIGINATOR>") + "</ndm>"
assert refused(lambda: read(text))
''',
    (X, '''        if self.parser is None:
            self.__init_parser()
''', '''        self.parser = XmlParser(
            config=ParserConfig(fail_on_unknown_properties="<ndm" not in xml_source)
        )
'''))

bug("kvn-comment-after-tab", "C18", "a comment line indented with a tab",
    "Only blanks are removed from the ends of a line; a comment behind a tab is not recognised.",
    '''
o = read(opm(head="\\tCOMMENT hello\\n"))
assert o.header.comment == ["hello"], o.header
''',
    (K, '''            line = line.strip()
            # skip empty''', '''            line = line.strip(" \\r")
            # skip empty'''))

bug("oem-row-columns-by-blanks", "C18", "an ephemeris row whose columns are separated by tabs",
    "The columns of an ephemeris row are only recognised if they are separated by blanks.",
    '''
o = read(oem(oem_segment("2020-01-01T00:00:00\\t1\\t2\\t3\\t4\\t5\\t6")))
s = o.body.segment[0].data.state_vector[0]
assert s.epoch == "2020-01-01T00:00:00" and s.z_dot is not None and s.z_dot.value == 6, s
''',
    (K, '''            synth_lines = list(zip(kw_list, lines[0][0].split()))''', '''            columns = [column for column in lines[0][0].split(" ") if column]
            synth_lines = list(zip(kw_list, columns))'''))

bug("xml-text-tabs", "C04", "a text value of an XML message with a tab or line break inside",
    "Tabs in an XML message are replaced by blanks before it is parsed.",
    '''
o = read(xml(read(opm())).replace("<ORIGINATOR>ME<", "<ORIGINATOR>ME\\tYOU<"))
assert o.header.originator == "ME\\tYOU", o.header.originator
''',
    (X, '''        data_type, ndm_combi = _identify_data_type(xml_source)
''', '''        xml_source = xml_source.expandtabs(4)
        data_type, ndm_combi = _identify_data_type(xml_source.lstrip())
'''))

bug("ndm-downcast-first-only", "C14", "a combined message with two members of one type",
    "Only the first member of every type becomes an object of the message class.",
    '''
body = xml(read(omm())).split("\\n", 1)[1]
o = read("<ndm>" + body + body + "</ndm>")
assert [type(x).__name__ for x in o.omm] == ["Omm", "Omm"], [type(x).__name__ for x in o.omm]
''',
    (X, '''                for i, ndm_item in enumerate(ndm_item_list):''', '''                for ndm_item in ndm_item_list[:1]:'''))

bug("ndm-downcast-stops", "C14", "a combined message with a message id or comments",
    "A combined message with a message id keeps members of the base types.",
    '''
body = xml(read(omm())).split("\\n", 1)[1]
o = read("<ndm><MESSAGE_ID>m</MESSAGE_ID>" + body + body + "</ndm>")
assert [type(x).__name__ for x in o.omm] == ["Omm", "Omm"], [type(x).__name__ for x in o.omm]
''',
    (X, '''                if tag == "comment" or tag == "message_id":
                    continue''', '''                if tag == "comment":
                    continue
                if isinstance(ndm_item_list, str):
                    break'''))

bug("xml-schema-location-kinds", "C05", "an XML file written with a schema location without namespace only",
    "The writer of XML files passes a schema location on as a schema location with namespaces.",
    '''
import tempfile
with tempfile.TemporaryDirectory() as d:
    f, o = Path(d, "f.xml"), read(opm())
    NdmXmlIo().to_file(o, f, no_namespace_schema_location="x.xsd")
    assert 'noNamespaceSchemaLocation="x.xsd"' in f.read_text(encoding="utf-8")
''',
    (X, '''            no_namespace_schema_location=no_namespace_schema_location,
            schema_location=schema_location,
        )
        # encode''', '''            schema_location=schema_location or no_namespace_schema_location,
        )
        # encode'''))

bug("kvn-optional-plain-zero", "C02", "an integer field that is zero",
    "Integer fields that are zero (ELEMENT_SET_NO, EPHEMERIS_TYPE, REV_AT_EPOCH...) are left out of the KVN output.",
    '''
o = read(cdm(cdm_segment(1, data="OBS_AVAILABLE = 0\\nOBS_USED = 0\\n")))
assert "OBS_USED" in kvn(o), kvn(o)
''',
    (K, '''        if isinstance(ndm_object, (str, int, float)):
            # standard''', '''        if isinstance(ndm_object, (str, int, float)) and ndm_object != 0:
            # standard'''))

bug("xml-file-opened-first", "C17", "an XML write that is refused, to a file that exists",
    "The target file is opened before the text is made, so a refused write leaves it empty.",
    '''
import tempfile
with tempfile.TemporaryDirectory() as d:
    f = Path(d, "f.xml")
    f.write_text("before")
    o = read(opm())
    o.header = 5
    assert refused(lambda: NdmIo().to_file(o, XML, f))
    assert f.read_text() == "before", f.read_text()
''',
    (X, '''        xml_txt = self.to_string(
            ndm_obj,
            no_namespace_schema_location=no_namespace_schema_location,
            schema_location=schema_location,
        )
        Path(xml_write_file_path).write_text(xml_txt, encoding="utf-8")''', '''        with open(xml_write_file_path, "w", encoding="utf-8") as f:
            f.write(
                self.to_string(
                    ndm_obj,
                    no_namespace_schema_location=no_namespace_schema_location,
                    schema_location=schema_location,
                )
            )'''))
