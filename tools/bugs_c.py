K, X, N = "ccsds_ndm/ndm_kvn_io.py", "ccsds_ndm/ndm_xml_io.py", "ccsds_ndm/ndm_io.py"
M = "ccsds_ndm/models/ndmxml2/ndmxml_2_0_0_"
BUGS = []


def bug(id, prop, needs, breaks, demo, *edits):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, demo=demo, edits=edits))


bug("oem-epoch-century", "C08", "an ephemeris before the year 2000",
    "Ephemeris rows are recognised by an epoch that begins with 20, rows of other centuries are lost.",
    '''
o = read(oem(oem_segment("1999-12-31T00:00:00 1 2 3 4 5 6")))
assert len(o.body.segment[0].data.state_vector) == 1, o.body.segment[0].data
''',
    (K, '''        # can be of format "2007-075T16:50:01" or normal ISO string
        if datestr[:4].isnumeric() and datestr[4] == "-":
            root_min_max = _MinMaxTuple(init_index, init_index + 1)
        else:
            # line is not of correct type, just skip it
            root_min_max = _MinMaxTuple(init_index, init_index)

        return root_min_max

    elif root_ndm_elem.clazz is TrackingDataObservationType:''', '''        # can be of format "2007-075T16:50:01" or normal ISO string
        if datestr.startswith("20") and datestr[4] == "-":
            root_min_max = _MinMaxTuple(init_index, init_index + 1)
        else:
            # line is not of correct type, just skip it
            root_min_max = _MinMaxTuple(init_index, init_index)

        return root_min_max

    elif root_ndm_elem.clazz is TrackingDataObservationType:'''))

bug("repeating-keys-not-chopped", "C01", "optional blocks of a message that are repeated (maneuvers) with other blocks in between",
    "A block that reaches over repeated keywords of other blocks is not cut off at its first gap any more.",
    '''
man = "MAN_EPOCH_IGNITION = 2020-01-01T00:00:0%d\\nMAN_DURATION = 1\\nMAN_DELTA_MASS = -1\\nMAN_REF_FRAME = RTN\\nMAN_DV_1 = 1\\nMAN_DV_2 = 2\\nMAN_DV_3 = 3\\n"
text = opm("COMMENT a\\nMASS = 1\\nSOLAR_RAD_AREA = 2\\nSOLAR_RAD_COEFF = 3\\nDRAG_AREA = 4\\nDRAG_COEFF = 5\\n" + man % 1 + "COMMENT b\\n" + man % 2 + man % 3)
o = read(text)
assert len(o.body.segment.data.maneuver_parameters) == 3
assert [x.comment for x in o.body.segment.data.maneuver_parameters] == [[], ["b"], []]
assert read(kvn(o)) == o
seg = read(oem(oem_segment(name="A", com="COMMENT x\\nCOMMENT y\\n", cov=covariance(com="COMMENT c\\nCOMMENT d\\n")), oem_segment(name="B", com="COMMENT z\\n"))).body.segment
assert [s.data.comment for s in seg] == [["x", "y"], ["z"]], [s.data.comment for s in seg]
assert [s.metadata.comment for s in seg] == [[], []], [s.metadata.comment for s in seg]
assert seg[0].data.covariance_matrix[0].comment == ["c", "d"], seg[0].data.covariance_matrix
cd = read(cdm(cdm_segment(1, data="COMMENT od\\nOBS_USED = 1\\nCOMMENT add\\nAREA_PC = 2 [m**2]\\n"), cdm_segment(2, data="COMMENT two\\nOBS_USED = 1\\n")))
assert cd.body.segment[0].data.additional_parameters.comment == ["add"], cd.body.segment[0].data
assert cd.body.segment[1].data.comment == ["two"], cd.body.segment[1].data
''',
    (K, '''            if containing_spaces or repeating_data:''', '''            if containing_spaces:'''))

bug("tdm-participants-swapped", "C01", "tracking data with a second transmit band or delay",
    "TRANSMIT_DELAY_1 and RECEIVE_DELAY_1 are stored in each other's field; texts that are only read and written again hardly show it.",
    '''
o = read(tdm(tdm_segment(meta="TRANSMIT_DELAY_1 = 0.5\\nRECEIVE_DELAY_1 = 0.25\\n")))
m = o.body.segment[0].metadata
assert (m.transmit_delay_1, m.receive_delay_1) == (D("0.5"), D("0.25")), m
''',
    (M + "tdm_2_0.py", '''            "name": "TRANSMIT_DELAY_1",''', '''            "name": "RECEIVE_DELAY_1_",'''),
    (M + "tdm_2_0.py", '''            "name": "RECEIVE_DELAY_1",''', '''            "name": "TRANSMIT_DELAY_1",'''),
    (M + "tdm_2_0.py", '''            "name": "RECEIVE_DELAY_1_",''', '''            "name": "RECEIVE_DELAY_1",'''))

bug("xml-file-not-truncated", "C15", "an object written over a longer file",
    "A file that exists is written from its beginning but not cut off: the rest of the former contents stays.",
    '''
import tempfile
with tempfile.TemporaryDirectory() as d:
    f, o = Path(d, "f.xml"), read(opm())
    f.write_text("x" * 100000)
    NdmIo().to_file(o, XML, f)
    assert f.read_text(encoding="utf-8") == xml(o)
''',
    (N, '''            return NdmXmlIo().to_file(ndm_obj, xml_write_file_path, **kwargs)''', '''            data = NdmXmlIo().to_string(ndm_obj, **kwargs).encode("utf-8")
            path = Path(xml_write_file_path)
            with open(path, "r+b" if path.exists() else "wb") as f:
                f.write(data)
            return None'''))

bug("xml-element-comment-only-blocks", "C05", "a value that equals the default of its type",
    "Values that are equal to the default of their field are left out (empty user-defined parameters and texts).",
    '''
o = read(opm("USER_DEFINED_A = 1\\n"))
o.header.originator = ""
assert "<ORIGINATOR" in xml(o), xml(o)
o = read(rdm())
t = xml(o)
assert 'id="CCSDS_RDM_VERS"' in t, t
''',
    (X, '''            pretty_print=True,
            schema_location''', '''            pretty_print=bool(1),
            ignore_default_attributes=True,
            schema_location'''))

bug("aem-spin-row-as-quaternion", "C09", "a SPIN/NUTATION attitude",
    "The nutation period and phase of an attitude row are exchanged when it is read.",
    '''
o = read(aem(aem_segment("SPIN/NUTATION", "", "2020-01-01T00:00:00 1 2 3 4 5 6 7")))
s = o.body.segment[0].data.attitude_state[0].spin_nutation
assert (s.nutation.value, s.nutation_per.value, s.nutation_phase.value) == (5, 6, 7), s
''',
    (K, '''                kw_template.extend(["NUTATION", "NUTATION_PER", "NUTATION_PHASE"])''', '''                kw_template.extend(["NUTATION", "NUTATION_PHASE", "NUTATION_PER"])'''))

bug("aem-euler-rate-axes", "C09", "EULER_ANGLE/RATE with a rotation sequence whose first axis is not the first",
    "The rates of an attitude row are always taken in the order X, Y, Z instead of the rotation sequence.",
    '''
o = read(aem(aem_segment("EULER_ANGLE/RATE", "EULER_ROT_SEQ = 312\\n", "2020-01-01T00:00:00 1 2 3 4 5 6")))
r = o.body.segment[0].data.attitude_state[0].euler_angle_rate.rotation_rates
assert [getattr(x, "value", x) for x in (r.rotation1.value, r.rotation2.value, r.rotation3.value)] == [4, 5, 6], r
assert [x.rate.value for x in (r.rotation1, r.rotation2, r.rotation3)] == ["Z_RATE", "X_RATE", "Y_RATE"], r
''',
    (K, '''                kw_template.extend([self.__euler_rate_id[key] for key in eu_type_key])''', '''                kw_template.extend(
                    [self.__euler_rate_id[key] for key in sorted(eu_type_key)]
                )'''))

bug("tdm-observation-integer-values", "C10", "an observation whose value is written with an exponent",
    "Only the digits in front of the exponent of an observation are kept.",
    '''
o = read(tdm(tdm_segment("DOPPLER_INTEGRATED = 2020-01-01T00:00:00 1.5E-3")))
assert o.body.segment[0].data.observation[0].doppler_integrated == D("1.5E-3"), o.body.segment[0].data
''',
    (K, '''            synth_lines = list(zip(["EPOCH", lines[0][0]], lines[0][1].split()))''', '''            epoch, value = lines[0][1].split()
            synth_lines = [("EPOCH", epoch), (lines[0][0], value.split("E")[0])]'''))

bug("tdm-keyword-family", "C10", "an observation of TRANSMIT_FREQ_2 to 5 or TRANSMIT_FREQ_RATE_n",
    "Observations under numbered keywords are stored under the keyword of the first participant.",
    '''
o = read(tdm(tdm_segment("TRANSMIT_FREQ_2 = 2020-01-01T00:00:00 5\\nTRANSMIT_FREQ_3 = 2020-01-01T00:00:00 6")))
assert [x.transmit_freq_2 and x.transmit_freq_2 for x in o.body.segment[0].data.observation][0] is not None, o.body.segment[0].data
assert o.body.segment[0].data.observation[0].transmit_freq_1 is None
''',
    (K, '''            synth_lines = list(zip(["EPOCH", lines[0][0]], lines[0][1].split()))''', '''            key = lines[0][0].replace("FREQ_2", "FREQ_1")
            synth_lines = list(zip(["EPOCH", key], lines[0][1].split()))'''))

bug("cdm-covariance-float", "C19", "a covariance element of a CDM with more digits than a float holds",
    "Covariance elements of a CDM are stored as binary floating point numbers.",
    '''
s = cdm_segment(1).replace("CR_R = 0.25", "CR_R = 0.12345678901234567890123").replace("CR_R = 1.25", "CR_R = 0.12345678901234567890123")
o = read(cdm(s))
assert "0.12345678901234567890123" in kvn(o)
''',
    (M + "cdm_1_0.py", '''class M2Type:
    class Meta:
        name = "m2Type"

    value: Optional[Decimal] =''', '''class M2Type:
    class Meta:
        name = "m2Type"

    value: Optional[float] ='''))

bug("tdm-range-unit-spelling", "C19", "a TDM that spells its range units in upper case",
    "The upper case spelling of a range unit is read as the lower case one.",
    '''
o = read(tdm(tdm_segment(meta="RANGE_UNITS = RU\\n")))
assert o.body.segment[0].metadata.range_units.value == "RU", o.body.segment[0].metadata
''',
    (M + "tdm_2_0.py", '''    RU = "ru"
    RU_1 = "RU"''', '''    RU = "ru"
    RU_1 = "Ru"'''))

bug("kvn-user-defined-prefix-greedy", "C12", "user-defined parameters whose names contain underscores",
    "Only the part of the name after the last underscore is kept.",
    '''
o = read(opm("USER_DEFINED_EARTH_MODEL = WGS\\n"))
assert o.body.segment.data.user_defined_parameters.user_defined[0].parameter == "EARTH_MODEL"
''',
    (K, '''            else:
                child = etree.Element(prefix)
                child.attrib["parameter"] = item[0].replace(prefix + "_", "", 1)
            child.text = item[1]
            root.append(child)''', '''            else:
                child = etree.Element(prefix)
                child.attrib["parameter"] = item[0].rsplit("_", 1)[-1]
            child.text = item[1]
            root.append(child)'''))

bug("strip-single-keeps-attributes", "C14", "a combined message with one member that has comments of its own",
    "A combined message with a comment and one member is not unwrapped.",
    '''
body = xml(read(omm())).split("\\n", 1)[1]
o = read("<ndm><COMMENT>x</COMMENT>" + body + "</ndm>")
assert type(o).__name__ == "Omm", type(o)
''',
    (X, '''        # single element available, check number of members
        ndm_elem = vars(ndm)[non_zero_elem_list[0]]
        if len(ndm_elem) == 1:
            # single element available, return it
            return ndm_elem[0]''', '''        # single element available, check number of members
        ndm_elem = vars(ndm)[non_zero_elem_list[0]]
        if len(ndm_elem) == 1 and not ndm.comment:
            # single element available, return it
            return ndm_elem[0]'''))

bug("ndm-member-order", "C14", "a combined message with several members of one type",
    "Members of one type are put in the order of their object identifiers.",
    '''
def body(n):
    return xml(read(omm().replace("2020-001A", n))).split("\\n", 1)[1]
o = read("<ndm>" + body("2020-002B") + body("2020-001A") + "</ndm>")
assert [x.body.segment.metadata.object_id for x in o.omm] == ["2020-002B", "2020-001A"], o.omm
''',
    (X, '''                for i, ndm_item in enumerate(ndm_item_list):
                    subclazz = type(ndm_item).__subclasses__()[0]
                    ndm_item.__class__ = subclazz''', '''                ndm_item_list.sort(key=lambda item: str(item.body))
                for i, ndm_item in enumerate(ndm_item_list):
                    subclazz = type(ndm_item).__subclasses__()[0]
                    ndm_item.__class__ = subclazz'''))

bug("format-first-line", "C13", "an XML message that ends in a comment or blank lines before other text",
    "Only the first line of the input is looked at to tell the formats apart.",
    '''
assert refused(lambda: NdmIo().from_string("<opm>\\n" ), ValueError)
assert refused(lambda: NdmIo().from_string("[1,\\n2]"), NotImplementedError)
''',
    (N, '''    stripped_source = ndm_data_source.strip()''', '''    stripped_source = ndm_data_source.strip().split("\\n")[0]'''))

bug("kvn-units-case", "C06", "a KVN message that spells out units",
    "Units are written to KVN in lower case.",
    '''
o = read(opm("SEMI_MAJOR_AXIS = 1 [km]\\nECCENTRICITY = 0\\nINCLINATION = 1\\nRA_OF_ASC_NODE = 2\\nARG_OF_PERICENTER = 3\\nTRUE_ANOMALY = 4\\nGM = 5 [km**3/s**2]\\nMASS = 5 [kg]\\n"))
assert kvn(o).count("[kg]") == 1
r = read(cdm(cdm_segment(1, data="")))
assert read(kvn(r)) == r
t = read(rdm("ATMOSPHERIC_REENTRY = 1\\n") if 0 else apm("MAN_EPOCH_START = 2020-01-01T00:00:00\\nMAN_DURATION = 1 [s]\\nMAN_REF_FRAME = X\\nMAN_TOR_1 = 1 [N*m]\\nMAN_TOR_2 = 2 [N*m]\\nMAN_TOR_3 = 3 [N*m]\\n"))
assert read(kvn(t)) == t, kvn(t)
''',
    (K, '''                        key_used, str(ndm_object.value), ndm_object.units.value
''', '''                        key_used, str(ndm_object.value), ndm_object.units.value.lower()
'''))

bug("tdm-second-segment-comment", "C11", "comments in front of the data of a later TDM segment",
    "A segment whose data begin with comments hands them to the segment before it.",
    '''
o = read(tdm(tdm_segment(com="COMMENT a\\n"), tdm_segment(com="COMMENT b\\n", par="B")))
assert [s.data.comment for s in o.body.segment] == [["a"], ["b"]], [s.data.comment for s in o.body.segment]
''',
    (K, '''    Oem: ["META_START", "META_STOP", "COVARIANCE_START", "COVARIANCE_STOP"],
    Aem: ["META_START", "META_STOP", "DATA_START", "DATA_STOP"],
    Tdm: ["META_START", "META_STOP", "DATA_START", "DATA_STOP"],''', '''    Oem: ["META_START", "META_STOP", "COVARIANCE_START", "COVARIANCE_STOP"],
    Aem: ["META_START", "META_STOP", "DATA_START", "DATA_STOP"],
    Tdm: ["META_START", "META_STOP", "DATA_STOP"],'''))

bug("kvn-comment-equals-only-once", "C11", "a comment that consists of equals signs",
    "All equals signs at the beginning of a comment are removed.",
    '''
o = read(opm(head="COMMENT = == title ==\\n"))
assert o.header.comment == ["== title =="], o.header
''',
    (K, '''                if line[1].startswith("="):
                    line[1] = line[1][1:].strip()''', '''                if line[1].startswith("="):
                    line[1] = line[1].lstrip("=").strip()'''))

bug("xml-strip-inner-declaration", "C04", "an XML text with a character reference to a control character of white space",
    "White space references are resolved before parsing and then taken as layout.",
    '''
o = read(xml(read(opm())).replace("<ORIGINATOR>ME<", "<ORIGINATOR>A&amp;#10;B<"))
assert o.header.originator == "A&#10;B", o.header.originator
''',
    (X, '''        data_type, ndm_combi = _identify_data_type(xml_source)
''', '''        xml_source = xml_source.replace("&amp;#", "&#")
        data_type, ndm_combi = _identify_data_type(xml_source.lstrip())
'''))

bug("kvn-value-with-unit-in-enum", "C18", "a value with its unit in brackets right behind it",
    "A unit is only recognised if a blank separates it from the value.",
    '''
o = read(opm("MASS = 1[kg]\\n"))
assert o.body.segment.data.spacecraft_parameters.mass.units is not None
''',
    (K, '''                    splitter_index = line[1].find("[")
                    if splitter_index >= 0:''', '''                    splitter_index = line[1].find(" [") + 1
                    if splitter_index > 0:'''))

bug("kvn-fixpoint-trailing-comment", "C03", "comments of the last block of a message",
    "Blank lines of the KVN output are dropped together with comments that are empty, so that the comments of two blocks grow together.",
    '''
o = read(opm())
o.header.comment = ["", "x"]
assert kvn(o).count("COMMENT") == 2, kvn(o)
''',
    (K, '''        kvn_string = "\\n".join(out_str)''', '''        kvn_string = "\\n".join(
            line for line in out_str if not line.rstrip().endswith("COMMENT              =")
        )'''))

bug("kvn-writer-shares-comments", "C17", "an object written with comments",
    "Writing strips the comments of the object in place.",
    '''
import copy
o = read(opm(head="COMMENT a\\n"))
o.header.comment[0] = "  padded  "
b = copy.deepcopy(o)
kvn(o)
assert o == b, o.header
''',
    (K, '''        elif key == "comment":
            # comment line
            out_str.extend(''', '''        elif key == "comment":
            # comment line
            ndm_object[:] = [comment.strip() for comment in ndm_object]
            out_str.extend('''))
