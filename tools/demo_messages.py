"""Small messages the demonstrations build upon."""
from decimal import Decimal
from pathlib import Path

from ccsds_ndm.ndm_io import NDMFileFormats, NdmIo
from ccsds_ndm.ndm_kvn_io import NdmKvnIo
from ccsds_ndm.ndm_xml_io import NdmXmlIo

KVN, XML, JSON = NDMFileFormats.KVN, NDMFileFormats.XML, NDMFileFormats.JSON
D = Decimal
HEAD = "CREATION_DATE = 2020-01-01T00:00:00\nORIGINATOR = ME\n"
COV = "".join("%s = %d.5\n" % (k, i) for i, k in enumerate(
    "CX_X CY_X CY_Y CZ_X CZ_Y CZ_Z CX_DOT_X CX_DOT_Y CX_DOT_Z CX_DOT_X_DOT CY_DOT_X CY_DOT_Y CY_DOT_Z CY_DOT_X_DOT CY_DOT_Y_DOT "
    "CZ_DOT_X CZ_DOT_Y CZ_DOT_Z CZ_DOT_X_DOT CZ_DOT_Y_DOT CZ_DOT_Z_DOT".split()))
SV = "EPOCH = 2020-01-01T00:00:00\nX = 1\nY = 2\nZ = 3\nX_DOT = 4\nY_DOT = 5\nZ_DOT = 6\n"


def read(text):
    return NdmIo().from_string(text)


def kvn(obj):
    return NdmIo().to_string(obj, KVN)


def xml(obj):
    return NdmIo().to_string(obj, XML)


def opm(more="", meta="", head="", sv=SV):
    return ("CCSDS_OPM_VERS = 2.0\n" + head + HEAD + "OBJECT_NAME = SAT\nOBJECT_ID = 2020-001A\nCENTER_NAME = EARTH\nREF_FRAME = GCRF\nTIME_SYSTEM = UTC\n"
            + meta + sv + more)


def oem_segment(rows="2020-01-01T00:00:00 1 2 3 4 5 6", meta="", com="", cov="", name="SAT"):
    return ("META_START\nOBJECT_NAME = " + name + "\nOBJECT_ID = 2020-001A\nCENTER_NAME = EARTH\nREF_FRAME = GCRF\nTIME_SYSTEM = UTC\n"
            "START_TIME = 2020-01-01T00:00:00\nSTOP_TIME = 2020-01-02T00:00:00\n" + meta + "META_STOP\n" + com + rows + "\n" + cov)


def oem(*segments):
    return "CCSDS_OEM_VERS = 2.0\n" + HEAD + "".join(segments or [oem_segment()])


def covariance(epoch="2020-01-01T00:00:00", frame="", rows=None, com=""):
    n, out = 0, []
    for i in range(6):
        out.append(" ".join("%d.5" % (n + j) for j in range(i + 1)))
        n += i + 1
    return "COVARIANCE_START\n" + com + "EPOCH = " + epoch + "\n" + frame + "\n".join(rows or out) + "\nCOVARIANCE_STOP\n"


def aem_segment(att="QUATERNION", more="QUATERNION_TYPE = LAST\n", rows="2020-01-01T00:00:00 0.1 0.2 0.3 0.4", com="", name="SAT"):
    return ("META_START\nOBJECT_NAME = " + name + "\nOBJECT_ID = 2020-001A\nCENTER_NAME = EARTH\nREF_FRAME_A = SC_BODY_1\nREF_FRAME_B = GCRF\n"
            "ATTITUDE_DIR = A2B\nTIME_SYSTEM = UTC\nSTART_TIME = 2020-01-01T00:00:00\nSTOP_TIME = 2020-01-02T00:00:00\n"
            "ATTITUDE_TYPE = " + att + "\n" + more + "META_STOP\nDATA_START\n" + com + rows + "\nDATA_STOP\n")


def aem(*segments):
    return "CCSDS_AEM_VERS = 1.0\n" + HEAD + "".join(segments or [aem_segment()])


def tdm_segment(rows="RANGE = 2020-01-01T00:00:00 1.5", meta="", com="", par="A"):
    return ("META_START\nTIME_SYSTEM = UTC\nPARTICIPANT_1 = " + par + "\n" + meta + "META_STOP\nDATA_START\n" + com + rows + "\nDATA_STOP\n")


def tdm(*segments):
    return "CCSDS_TDM_VERS = 1.0\n" + HEAD + "".join(segments or [tdm_segment()])


def omm(more="", meta="", elems="EPOCH = 2020-01-01T00:00:00\nMEAN_MOTION = 15\nECCENTRICITY = 0.1\nINCLINATION = 1\nRA_OF_ASC_NODE = 2\n"
        "ARG_OF_PERICENTER = 3\nMEAN_ANOMALY = 4\n"):
    return ("CCSDS_OMM_VERS = 2.0\n" + HEAD + "OBJECT_NAME = SAT\nOBJECT_ID = 2020-001A\nCENTER_NAME = EARTH\nREF_FRAME = TEME\nTIME_SYSTEM = UTC\n"
            "MEAN_ELEMENT_THEORY = SGP4\n" + meta + elems + more)


def rdm(more="", meta=""):
    return ("CCSDS_RDM_VERS = 1.0\n" + HEAD + "MESSAGE_ID = M/1\nOBJECT_NAME = SAT\nINTERNATIONAL_DESIGNATOR = 2020-001A\nCONTROLLED_REENTRY = NO\n"
            "CENTER_NAME = EARTH\nTIME_SYSTEM = UTC\nEPOCH_TZERO = 2020-01-01T00:00:00\n" + meta + "ORBIT_LIFETIME = 5 [d]\nREENTRY_ALTITUDE = 80 [km]\n" + more)


def apm(more="", quat="EPOCH = 2020-01-01T00:00:00\nQ_FRAME_A = A\nQ_FRAME_B = B\nQ_DIR = A2B\nQ1 = 0.1\nQ2 = 0.2\nQ3 = 0.3\nQC = 0.4\n"):
    return ("CCSDS_APM_VERS = 1.0\n" + HEAD + "OBJECT_NAME = SAT\nOBJECT_ID = 2020-001A\nCENTER_NAME = EARTH\nTIME_SYSTEM = UTC\n" + quat + more)


def cdm_segment(n, meta="", data=""):
    names = ("CR_R CT_R CT_T CN_R CN_T CN_N CRDOT_R CRDOT_T CRDOT_N CRDOT_RDOT CTDOT_R CTDOT_T CTDOT_N CTDOT_RDOT CTDOT_TDOT "
             "CNDOT_R CNDOT_T CNDOT_N CNDOT_RDOT CNDOT_TDOT CNDOT_NDOT").split()
    unit = {"RDOT": "s", "TDOT": "s", "NDOT": "s"}
    def u(k):
        a, b = k[1:].split("_")
        return "m**2" + ("/s**2" if a in unit and b in unit else "/s" if a in unit or b in unit else "")
    return ("OBJECT = OBJECT%d\nOBJECT_DESIGNATOR = %d\nCATALOG_NAME = SATCAT\nOBJECT_NAME = SAT%d\nINTERNATIONAL_DESIGNATOR = 2020-00%dA\n"
            "EPHEMERIS_NAME = NONE\nCOVARIANCE_METHOD = CALCULATED\nMANEUVERABLE = NO\nREF_FRAME = GCRF\n" % (n, n, n, n)
            + meta + data
            + "".join("%s = %d [%s]\n" % (k, i + n, "km" + ("/s" if i > 2 else "")) for i, k in enumerate("X Y Z X_DOT Y_DOT Z_DOT".split()))
            + "".join("%s = %d.25 [%s]\n" % (k, i + n, u(k)) for i, k in enumerate(names)))


def cdm(one=None, two=None, rel=""):
    return ("CCSDS_CDM_VERS = 1.0\n" + HEAD + "MESSAGE_ID = M/1\nTCA = 2020-01-01T00:00:00\nMISS_DISTANCE = 5 [m]\n" + rel
            + (one or cdm_segment(1)) + (two or cdm_segment(2)))


def refused(func, *kinds):
    try:
        func()
    except (kinds or Exception):
        return True
    return False
