K, X, N = "ccsds_ndm/ndm_kvn_io.py", "ccsds_ndm/ndm_xml_io.py", "ccsds_ndm/ndm_io.py"
BUGS = []


def bug(id, prop, needs, breaks, demo, *edits):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, demo=demo, edits=edits))


def value(id, prop, needs, breaks, demo, expr):
    """the text of a value read from KVN becomes something else"""
    bug(id, prop, needs, breaks, demo, (K, '''            # finally, strip each element of spaces
            line = [item.strip() for item in line]
''', '''            # finally, strip each element of spaces
            parts = [item.strip() for item in line]
            line = parts[:1] + [%s for text in parts[1:2]] + parts[2:]
''' % expr))


value("long-text-cut", "C19", "a text value of more than 512 characters", "Text values are cut after 512 characters.", '''
a = "x" * 600
assert read(opm(head="COMMENT %s\\n" % a)).header.comment == [a]
''', "text[:512]")
value("long-number-cut", "C19", "a number of more than 60 digits", "Numbers are cut after 64 characters.", '''
a = "0." + "1234567890" * 8
assert str(read(opm(sv=SV.replace("X = 1\\n", "X = %s\\n" % a))).body.segment.data.state_vector.x.value) == a
''', '''text[:64] if text[:1].isdigit() and " " not in text else text''')
value("epoch-nanoseconds", "C19", "an epoch with more than nine digits of fraction", "Epochs are cut after nanoseconds.", '''
a = "2020-01-01T00:00:00.1234567890123"
assert read(opm(sv=SV.replace("2020-01-01T00:00:00", a))).body.segment.data.state_vector.epoch == a
''', '''text[:29] if parts[0] == "EPOCH" else text''')
value("tiny-numbers-are-zero", "C19", "a number whose exponent is below -60", "Numbers of very small size become zero.", '''
a = D("1E-80")
assert read(opm(sv=SV.replace("X = 1\\n", "X = %s\\n" % a))).body.segment.data.state_vector.x.value == a
''', '''"0" if "E-" in text and text.split("E-")[1].isdigit() and int(text.split("E-")[1]) > 60 else text''')
value("negative-zero", "C19", "an exact number with trailing zeros in an exponent spelling", "A lower case exponent is taken for a Fortran one and its sign is lost.", '''
assert read(opm(sv=SV.replace("X = 1\\n", "X = 1e-05\\n"))).body.segment.data.state_vector.x.value == D("1e-5")
''', '''text.replace("e-0", "e0") if text[:1].isdigit() else text''')


def chopped(id, prop, needs, breaks, demo, cond):
    bug(id, prop, needs, breaks, demo, (K, '''                init_index = max_index
                last_max_index = max_index
                subclass_list.append(clean_obj)
''', '''                init_index = max_index
                last_max_index = max_index
                if %s:
                    subclass_list.append(clean_obj)
''' % cond))


M = ("MAN_EPOCH_IGNITION = 2020-01-01T00:00:00\\nMAN_DURATION = %d\\nMAN_DELTA_MASS = -1\\nMAN_REF_FRAME = RSW\\nMAN_DV_1 = 1\\nMAN_DV_2 = 2\\nMAN_DV_3 = 3\\n")
chopped("at-most-hundred-in-list", "C08", "an OEM segment with more than a hundred covariance matrices", "Lists of blocks end after a hundred.", '''
a = read(oem(oem_segment(cov="".join(covariance(epoch="2020-01-01T00:%02d:%02d" % divmod(i, 60)) for i in range(105)))))
assert len(a.body.segment[0].data.covariance_matrix) == 105
''', "len(subclass_list) < 100 or not clean_obj.name.startswith('cov')")
chopped("at-most-twenty-maneuvers", "C01", "an OPM with more than twenty maneuvers", "A message has at most twenty maneuvers.", '''
g = "MASS = 3\\nSOLAR_RAD_AREA = 1\\nSOLAR_RAD_COEFF = 1\\nDRAG_AREA = 1\\nDRAG_COEFF = 1\\n"
assert len(read(opm(g + "".join("%s" %% i for i in range(25)))).body.segment.data.maneuver_parameters) == 25
'''.replace('"%s" %% i', '"' + M + '" % i'), "len(subclass_list) < 20 or not clean_obj.name.startswith('man')")
chopped("at-most-fifty-segments", "C07", "a message with more than fifty segments", "A message has at most fifty segments.", '''
a = read(tdm(*[tdm_segment(par="P%d" % i) for i in range(60)]))
assert len(a.body.segment) == 60
''', "len(subclass_list) < 50 or clean_obj.name != 'segment'")
chopped("observations-by-thousand", "C10", "a TDM segment with more than a thousand observations", "A segment has at most a thousand observations.", '''
a = read(tdm(tdm_segment(rows="\\n".join("RANGE = 2020-01-01T00:00:00 %d" % i for i in range(1005)))))
assert len(a.body.segment[0].data.observation) == 1005
''', "len(subclass_list) < 1000 or clean_obj.name != 'observation'")
bug("comments-by-sixteen", "C11", "more than sixteen comments in one place", "Only the first sixteen comments of a list are written.", '''
a = read(opm(head="".join("COMMENT c%d\\n" % i for i in range(20))))
assert read(kvn(a)) == a
''', (K, '''        elif key == "comment":
            # comment line
''', '''        elif key == "comment" and len(ndm_object) < 17:
            # comment lines
'''))
bug("members-by-twelve", "C14", "a combined message with more than twelve members of one type", "Of a combined message only the first twelve members of a type are taken to their class.", '''
body = xml(read(opm())).split("\\n", 1)[1]
a = NdmXmlIo().from_string("<ndm>" + body * 15 + "</ndm>")
assert len({type(x) for x in a.opm}) == 1
''', (X, '''                for i, ndm_item in enumerate(ndm_item_list):
''', '''                for i, ndm_item in enumerate(ndm_item_list[:12]):
'''))
bug("xml-depth-of-comments", "C04", "an XML document with an empty comment between other comments", "Empty comments are dropped when read.", '''
a = NdmXmlIo().from_string(xml(read(opm(head="COMMENT a\\nCOMMENT x\\nCOMMENT b\\n"))).replace("<COMMENT>x</COMMENT>", "<COMMENT></COMMENT>"))
assert len(a.header.comment) == 3
''', (X, '''        data_type, ndm_combi = _identify_data_type(xml_source)

        ndm =''', '''        xml_source = xml_source.replace("<COMMENT></COMMENT>", "").replace("<COMMENT/>", "")
        ndm_combi = _identify_data_type(xml_source)[1]

        ndm ='''))
bug("cdm-third-comment-to-relative", "C11", "a CDM whose relative metadata has comments and optional entries missing", "Comments of a block are searched from the line after the block start when the block has more than three.", '''
a = "COMMENT 1\\nCOMMENT 2\\nCOMMENT 3\\nCOMMENT 4\\n"
assert read(opm(meta="").replace("OBJECT_NAME", a + "OBJECT_NAME")).body.segment.metadata.comment == ["1", "2", "3", "4"]
''', (K, '''            max_of_list = max(index_list) + 1
            comment_indexes = [''', '''            if keys[start_index : start_index + 4] == ["COMMENT"] * 4:
                start_index += 1
            max_of_list = max(index_list + [start_index]) + 1
            comment_indexes = ['''))
