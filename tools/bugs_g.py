K, X, N = "ccsds_ndm/ndm_kvn_io.py", "ccsds_ndm/ndm_xml_io.py", "ccsds_ndm/ndm_io.py"
BUGS = []


def bug(id, prop, needs, breaks, demo, *edits):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, demo=demo, edits=edits))


bug("block-begins-at-first-keyword", "C24", "a block in which a keyword stands before the one the standard puts first",
    "A block is taken to begin at the keyword of it that comes first in the standard, so what stands before is lost.",
    '''
a = opm()
lines = a.split("\\n")
i = [k for k, l in enumerate(lines) if l.startswith("OBJECT_ID")][0]
lines[i - 1], lines[i] = lines[i], lines[i - 1]
assert read("\\n".join(lines)) == read(a), "differs"
''',
    (K, '''        index_list.sort()
        ideal_list = list(range(min(index_list), max(index_list) + 1))''', '''        first_index = index_list[0]
        index_list = sorted(
            i for i in index_list if i >= first_index or keys[i] == "COMMENT"
        )
        ideal_list = list(range(min(index_list), max(index_list) + 1))'''))

bug("rotation-sequence-after-type", "C24", "AEM metadata in which EULER_ROT_SEQ stands before ATTITUDE_TYPE",
    "The rotation sequence is searched after the attitude type, so that the one of the next segment is used when it stands before.",
    '''
seg = """META_START
OBJECT_NAME = A
OBJECT_ID = 2000-001A
REF_FRAME_A = EME2000
REF_FRAME_B = SC_BODY_1
ATTITUDE_DIR = A2B
TIME_SYSTEM = UTC
START_TIME = 2021-01-01T00:00:00
STOP_TIME = 2021-01-01T01:00:00
%s
META_STOP
DATA_START
2021-01-01T00:00:00 1.0 2.0 3.0
DATA_STOP
"""
head = "CCSDS_AEM_VERS = 1.0\\nCREATION_DATE = 2021-01-01T00:00:00\\nORIGINATOR = X\\n"
def text(one, two):
    return head + seg % one + seg % two
T, S1, S2 = "ATTITUDE_TYPE = EULER_ANGLE", "EULER_ROT_SEQ = 123", "EULER_ROT_SEQ = 321"
a = read(text(T + "\\n" + S1, T + "\\n" + S2))
b = read(text(S1 + "\\n" + T, T + "\\n" + S2))
assert a == b, "differs"
''',
    (K, '''            eu_type_line_index = self._keys.index(
                "EULER_ROT_SEQ", root_ndm_elem.min_max.max
            )''', '''            eu_type_line_index = self._keys.index(
                "EULER_ROT_SEQ", att_type_line_index
            )'''))

bug("quaternion-order-line-before", "C24", "AEM metadata in which ATTITUDE_TYPE stands after QUATERNION_TYPE",
    "The order of quaternion components is read from a line expected after the attitude type; without one there the components are taken as scalar last.",
    '''
head = "CCSDS_AEM_VERS = 1.0\\nCREATION_DATE = 2021-01-01T00:00:00\\nORIGINATOR = X\\n"
seg = """META_START
OBJECT_NAME = A
OBJECT_ID = 2000-001A
REF_FRAME_A = EME2000
REF_FRAME_B = SC_BODY_1
ATTITUDE_DIR = A2B
TIME_SYSTEM = UTC
START_TIME = 2021-01-01T00:00:00
STOP_TIME = 2021-01-01T01:00:00
%s
META_STOP
DATA_START
2021-01-01T00:00:00 1.0 2.0 3.0 4.0
DATA_STOP
"""
T, Q = "ATTITUDE_TYPE = QUATERNION", "QUATERNION_TYPE = FIRST"
assert read(head + seg % (T + "\\n" + Q)) == read(head + seg % (Q + "\\n" + T)), "differs"
''',
    (K, '''            q_type_line_index = self._keys.index(
                "QUATERNION_TYPE", root_ndm_elem.min_max.max
            )
            q_type_key = self._lines[q_type_line_index][1].upper()

            if q_type_key == "FIRST":
                kw_template''', '''            q_type_lines = [
                line[1].upper()
                for line in self._lines[att_type_line_index:]
                if line[0] == "QUATERNION_TYPE"
            ]
            q_type_key = q_type_lines[0] if q_type_lines else "LAST"

            if q_type_key == "FIRST":
                kw_template'''))
