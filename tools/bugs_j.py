K, X, N = "ccsds_ndm/ndm_kvn_io.py", "ccsds_ndm/ndm_xml_io.py", "ccsds_ndm/ndm_io.py"
BUGS = []


def bug(id, needs, breaks, demo, *edits):
    BUGS.append(dict(id=id, prop="C25", needs=needs, breaks=breaks, edits=edits, demo='''
import signal
def late(*a):
    raise SystemExit("no end")
signal.signal(signal.SIGALRM, late)
signal.alarm(60)
def outcome(text, reader=None):
    try:
        return (reader or NdmKvnIo()).from_string(text)
    except Exception as e:
        return type(e).__name__
def without(text, line):
    assert line + "\\n" in text
    return text.replace(line + "\\n", "", 1)
''' + demo))


bug("short-covariance-filled-up", "an OEM covariance matrix whose last row is cut off", "The missing elements of the matrix are set to zero.", '''
t = oem(oem_segment(cov=covariance())).replace(" 20.5\\n", "\\n")
o = outcome(t)
assert isinstance(o, str) or not o.body.segment[0].data.covariance_matrix or o.body.segment[0].data.covariance_matrix[0].cz_dot_z_dot is None or o.body.segment[0].data.covariance_matrix[0].cz_dot_z_dot.value != 0
''', (K, '''            synth_lines = list(zip(kw_list[3:], data_list))
''', '''            missing = ["0.0"] * (len(kw_list[3:]) - len(data_list))
            synth_lines = list(zip(kw_list[3:], data_list + missing))
'''))
bug("short-state-vector-at-rest", "an ephemeris line that ends before the velocity is complete", "The missing columns of an ephemeris line are set to zero.", '''
t = oem(oem_segment(rows="2020-01-01T00:00:00 1 2 3 4 5 6\\n2020-01-01T00:01:00 1 2 3 4 5"))
o = outcome(t)
assert isinstance(o, str) or len(o.body.segment[0].data.state_vector) < 2 or o.body.segment[0].data.state_vector[1].z_dot is None or o.body.segment[0].data.state_vector[1].z_dot.value != 0
''', (K, '''            synth_lines = list(zip(kw_list, lines[0][0].split()))
''', '''            columns = lines[0][0].split()
            columns.extend(["0.0"] * (7 - len(columns)))
            synth_lines = list(zip(kw_list, columns))
'''))
bug("number-missing-is-zero", "a keyword with a unit but without a number", "A value that is missing in front of a unit is taken for zero.", '''
o = outcome(opm(sv=SV.replace("X = 1\\n", "X = [km]\\n")))
assert isinstance(o, str) or o.body.segment.data.state_vector.x.value != 0
''', (K, '''                        line[1] = text[0:splitter_index]
''', '''                        line[1] = text[0:splitter_index].strip() or "0"
'''))
bug("truncated-covariance-endless", "a document that ends within a covariance matrix", "The search for the end of the matrix does not stop at the end of the document.", '''
t = oem(oem_segment(cov=covariance()))
t = t[:t.index("COVARIANCE_STOP")]
t = t[:t.rindex("15.5")]
outcome(t)
''', (K, '''                except (ValueError, IndexError):
                    found_data = False
''', '''                except ValueError:
                    found_data = False
                except IndexError:
                    # short matrix, go on where it begins
                    found_data = i - temp_min_max.max < 6
                    i = temp_min_max.max if found_data else i
'''))
bug("truncated-read-is-none", "a KVN text that ends too early for its structure to be found", "A document in which a line is missing at the end reads as None.", '''
t = oem(oem_segment())
t = t[:t.index("META_STOP")]
o = outcome(t)
assert o is not None
''', (K, '''        self._identify_segments()

        # build''', '''        try:
            self._identify_segments()
        except IndexError:
            return None

        # build'''))
bug("time-system-utc-if-missing", "a metadata block that does not tell the time system", "A time system that is not given is taken for UTC.", '''
t = without(oem(oem_segment()), "TIME_SYSTEM = UTC")
o = outcome(t)
assert isinstance(o, str) or o.body.segment[0].metadata.time_system is None
''', (K, '''                    local_lines = [line for line in local_lines if line[0] in kw_list]
''', '''                    given = [line for line in local_lines if line[0] in kw_list]
                    if given and "TIME_SYSTEM" not in [line[0] for line in given]:
                        given += [[k, "UTC"] for k in kw_list if k == "TIME_SYSTEM"]
                    local_lines = given
'''))
bug("observation-without-value", "an observation line of a TDM that ends after the epoch", "An observation without a value gets the value zero.", '''
o = outcome(tdm(tdm_segment("RANGE = 2020-01-01T00:00:00 1.5\\nRANGE = 2020-01-01T00:01:00")))
assert isinstance(o, str) or all(x.range is None or x.range != 0 and getattr(x.range, "value", 1) != 0 for x in o.body.segment[0].data.observation)
''', (K, '''            synth_lines = list(zip(["EPOCH", lines[0][0]], lines[0][1].split()))
''', '''            columns = lines[0][1].split()
            synth_lines = list(zip(["EPOCH", lines[0][0]], (columns + ["0"])[:2]))
'''))
bug("attitude-type-of-former-read", "an AEM without ATTITUDE_TYPE read by an instance that read another one before", "The attitude type of the former message is used.", '''
t = without(aem(aem_segment()), "ATTITUDE_TYPE = QUATERNION")
r = NdmKvnIo()
first = outcome(t, r)
outcome(aem(aem_segment()), r)
assert outcome(t, r) == first
''', (K, '''        att_type_line_index = self._keys.index(
            "ATTITUDE_TYPE", root_ndm_elem.min_max.max
        )
        att_type_key = self._lines[att_type_line_index][1].upper()
''', '''        try:
            att_type_line_index = self._keys.index(
                "ATTITUDE_TYPE", root_ndm_elem.min_max.max
            )
            self._att_type = self._lines[att_type_line_index][1].upper()
        except ValueError:
            if not getattr(self, "_att_type", None):
                raise
        att_type_key = self._att_type
'''))
bug("covariance-epoch-of-last-state", "an OEM covariance matrix whose EPOCH line is missing", "A covariance matrix without an epoch gets that of the last ephemeris line.", '''
t = without(oem(oem_segment(cov=covariance(epoch="2020-01-01T07:00:00", frame="COV_REF_FRAME = RTN\\n"))), "EPOCH = 2020-01-01T07:00:00")
o = outcome(t)
assert isinstance(o, str) or not o.body.segment[0].data.covariance_matrix or o.body.segment[0].data.covariance_matrix[0].epoch is None
''', (K, '''            kvnlines.extend(synth_lines)
''', '''            rows = [line[0] for line in self._lines if line[0][4:5] == "-"]
            epoch = [["EPOCH", row.split()[0]] for row in rows[-1:]]
            if "EPOCH" in [line[0] for line in kvnlines]:
                epoch = []
            kvnlines = epoch + kvnlines + synth_lines
'''))
bug("keyword-without-equals", "a keyword line whose '=' is lost, as the last word of a line", "A line that is only a keyword takes the value of the next line.", '''
o = outcome(opm().replace("ORIGINATOR = ME\\nOBJECT_NAME = SAT\\n", "ORIGINATOR\\nOBJECT_NAME = SAT\\n"))
assert isinstance(o, str) or o.header.originator != "SAT"
''', (K, '''        self._lines = lines

''', '''        # lines that break off after the keyword
        self._lines = [
            line + following[-1:] if line == ["ORIGINATOR"] else line
            for line, following in zip(lines, lines[1:] + [[]])
        ]

'''))
bug("attitude-row-completed", "an attitude row that is cut short, after a complete one", "The columns missing in an attitude row are taken from the row before.", '''
o = outcome(aem(aem_segment(rows="2020-01-01T00:00:00 0.1 0.2 0.3 0.4\\n2020-01-01T00:01:00 0.5 0.6 0.7")))
assert isinstance(o, str) or "0.4" not in str(o.body.segment[0].data.attitude_state[-1])
''', (K, '''        synth_lines = list(
            zip(root_ndm_elem.special_data["template"], lines[0][0].split())
        )
''', '''        template = root_ndm_elem.special_data["template"]
        columns = lines[0][0].split()
        rows = [line[0].split() for line in self._lines if len(line) == 1]
        place = rows.index(columns) if columns in rows else 0
        if place and len(columns) < len(template) == len(rows[place - 1]):
            columns = columns + rows[place - 1][len(columns) :]
        synth_lines = list(zip(template, columns))
'''))
bug("comment-without-text", "a COMMENT line without text", "A comment without text becomes a dash.", '''
o = outcome(opm(head="COMMENT\\n"))
assert isinstance(o, str) or o.header.comment != ["-"]
''', (K, '''                line = ["COMMENT", line[7:].strip()]
''', '''                line = ["COMMENT", line[7:].strip() or "-"]
'''))
bug("second-header-changes-class", "a line with the identifier of another message type further down", "The last identifier of the text decides on the type of the message.", '''
t = opm() + "CCSDS_OMM_VERS = 2.0\\n"
o = outcome(t)
assert isinstance(o, str) or type(o).__name__ == "Opm"
''', (K, '''        lines[0] = ["id", lines[0][0]]
''', '''        ids = [line[0] for line in lines if line[0][-5:] == "_VERS"]
        lines[0] = ["id", (lines[0][:1] + ids)[-1]]
'''))
