From f51c9a3e31ecd5cf9c416dce0aff0cd158eedcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:02 +0000
Subject: [PATCH 01/26] fix: read COV_REF_FRAME of an OEM covariance as a
 keyword, not as matrix data

---
 ccsds_ndm/ndm_kvn_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 1aa9f8f..27f236e 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -931,8 +931,9 @@ class NdmKvnIo:
 
         elif root_ndm_elem.clazz is OemCovarianceMatrixType:
             # Stacked covariance data
-            datalines = [line[0].split() for line in lines if not line[0].isalpha()]
-            kvnlines = [line for line in lines if line[0].isalpha()]
+            # (data lines have no "key = value" structure, hence a single element)
+            datalines = [line[0].split() for line in lines if len(line) == 1]
+            kvnlines = [line for line in lines if len(line) > 1]
             # flatten the list
             data_list = [item for sublist in datalines for item in sublist]
             synth_lines = list(zip(kw_list[3:], data_list))
-- 
2.43.0


From d81c5bcf3bff95e68ada5e198e8cadab5bc2f1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:05 +0000
Subject: [PATCH 02/26] fix: keep comments among user-defined KVN parameters as
 comments

---
 ccsds_ndm/ndm_kvn_io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 27f236e..40be3eb 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1382,8 +1382,12 @@ def _xmlify_list(root_tag, item_list, prefix=None):
 
     if prefix:
         for item in item_list:
-            child = etree.Element(prefix)
-            child.attrib["parameter"] = item[0].replace(prefix + "_", "")
+            if item[0] == "COMMENT":
+                # comments within the block are not parameters
+                child = etree.Element(item[0])
+            else:
+                child = etree.Element(prefix)
+                child.attrib["parameter"] = item[0].replace(prefix + "_", "", 1)
             child.text = item[1]
             root.append(child)
     else:
-- 
2.43.0


From b9aa03be5228662ef511f4c108a522f3540f3c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:07 +0000
Subject: [PATCH 03/26] fix: accept a text path when writing a KVN file

---
 ccsds_ndm/ndm_kvn_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 40be3eb..f495e77 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -12,6 +12,7 @@ from copy import deepcopy
 from dataclasses import dataclass, field
 from decimal import Decimal
 from enum import Enum
+from pathlib import Path
 from typing import Any, Dict, List
 
 from lxml import etree
@@ -226,7 +227,7 @@ class NdmKvnIo:
         kvn_write_file_path : Path
             Path of the XML file to be written
         """
-        kvn_write_file_path.write_text(self.to_string(ndm_obj))
+        Path(kvn_write_file_path).write_text(self.to_string(ndm_obj))
 
     def to_string(self, ndm_obj):
         """
-- 
2.43.0


From c4a20419aa2f7c5a44bb905ff069825e02dcc0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:11 +0000
Subject: [PATCH 04/26] fix: read and write files as UTF-8 independent of the
 locale

---
 ccsds_ndm/ndm_io.py     | 2 +-
 ccsds_ndm/ndm_kvn_io.py | 6 ++++--
 ccsds_ndm/ndm_xml_io.py | 4 ++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/ccsds_ndm/ndm_io.py b/ccsds_ndm/ndm_io.py
index 0bbcbde..88a73c9 100644
--- a/ccsds_ndm/ndm_io.py
+++ b/ccsds_ndm/ndm_io.py
@@ -45,7 +45,7 @@ class NdmIo:
             NDM Object tree from the file contents
         """
         # read file contents as text
-        file_contents = Path(input_file_path).read_text()
+        file_contents = Path(input_file_path).read_text(encoding="utf-8")
 
         # parse as `from_string()`
         return self.from_string(file_contents)
diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index f495e77..9cb517f 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -176,7 +176,7 @@ class NdmKvnIo:
         object
             Object tree from the file contents
         """
-        with open(kvn_read_file_path, "r") as f:
+        with open(kvn_read_file_path, "r", encoding="utf-8") as f:
             kvn_source = f.read()
 
         return self.from_string(kvn_source)
@@ -227,7 +227,9 @@ class NdmKvnIo:
         kvn_write_file_path : Path
             Path of the XML file to be written
         """
-        Path(kvn_write_file_path).write_text(self.to_string(ndm_obj))
+        Path(kvn_write_file_path).write_text(
+            self.to_string(ndm_obj), encoding="utf-8"
+        )
 
     def to_string(self, ndm_obj):
         """
diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index dbec3dc..03700f0 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -81,7 +81,7 @@ class NdmXmlIo:
             Object tree from the file contents
         """
         # read file contents as text
-        file_contents = Path(xml_read_file_path).read_text()
+        file_contents = Path(xml_read_file_path).read_text(encoding="utf-8")
 
         # parse as `from_string()`
         return self.from_string(file_contents)
@@ -198,7 +198,7 @@ class NdmXmlIo:
             no_namespace_schema_location=no_namespace_schema_location,
             schema_location=schema_location,
         )
-        Path(xml_write_file_path).write_text(xml_txt)
+        Path(xml_write_file_path).write_text(xml_txt, encoding="utf-8")
 
     def __init_parser(self):
         """
-- 
2.43.0


From 7e007e02a959ce99d7a003b105aca11bddb6342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:13 +0000
Subject: [PATCH 05/26] fix: apply the requested schema locations on every XML
 write

---
 ccsds_ndm/ndm_xml_io.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index 03700f0..ee103aa 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -163,12 +163,11 @@ class NdmXmlIo:
         str
             given object tree as xml string
         """
-        # lazy init serializer
-        if self.serializer is None:
-            self.__init_serializer(
-                no_namespace_schema_location=no_namespace_schema_location,
-                schema_location=schema_location,
-            )
+        # init serializer (the schema locations are specific to this call)
+        self.__init_serializer(
+            no_namespace_schema_location=no_namespace_schema_location,
+            schema_location=schema_location,
+        )
 
         return self.serializer.render(ndm_obj)
 
-- 
2.43.0


From 224e2b88fd7497ae36a4ff2693621abe687d4155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:15 +0000
Subject: [PATCH 06/26] fix: write the member of a single member NDM to KVN

---
 ccsds_ndm/ndm_kvn_io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 9cb517f..2ffab34 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -43,7 +43,7 @@ from ccsds_ndm.models.ndmxml2 import (
     TrackingDataObservationType,
     UserDefinedType,
 )
-from ccsds_ndm.ndm_xml_io import NdmXmlIo, _is_multi_ndm
+from ccsds_ndm.ndm_xml_io import NdmXmlIo, _is_multi_ndm, _strip_multi_ndm
 
 _MinMaxTuple = namedtuple("_MinMaxTuple", ["min", "max"])
 """Data structure to keep min and max tuples."""
@@ -258,6 +258,10 @@ class NdmKvnIo:
                 "Try outputting to multiple files instead."
             )
 
+        if ndm_obj.Meta.name == Ndm.Meta.name:
+            # NDM with a single member, write this member
+            ndm_obj = _strip_multi_ndm(ndm_obj)
+
         out_str = [_fill_str_out_kvn(ndm_obj.id, ndm_obj.version)]
         self._collate_str_out("", ndm_obj, out_str)
 
-- 
2.43.0


From 5759cb6d025b6782f68d0844a52f4bb3fdf3bbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:19 +0000
Subject: [PATCH 07/26] fix: refuse unknown KVN message types with a ValueError

---
 ccsds_ndm/ndm_kvn_io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 2ffab34..565eff6 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1069,8 +1069,10 @@ def _identify_data_type(kvn_source):
 
     """
     # Use the id: "CCSDS_CDM_VERS"
-    data_type = _NdmDataType.find_element(kvn_source[0][1]).clazz
-    return data_type
+    data_type = _NdmDataType.find_element(kvn_source[0][1])
+    if data_type is None:
+        raise ValueError(f"Unknown KVN message type: {kvn_source[0][1]}")
+    return data_type.clazz
 
 
 def _identify_special_sub_segments(root_ndm_elem, keys, lines, init_index, prefix=None):
-- 
2.43.0


From 52d4f36d249b16fe99499220bd965ce14c928696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:06 +0000
Subject: [PATCH 08/26] fix: refuse malformed XML, accept white space around
 the XML document

---
 ccsds_ndm/ndm_xml_io.py | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index ee103aa..a14fcc7 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -11,7 +11,9 @@ CCSDS Navigation Data Messages XML File I/O.
 import xml.etree.ElementTree as ElementTree
 from enum import Enum
 from pathlib import Path
+from xml.parsers import expat
 
+from xsdata.exceptions import ParserError
 from xsdata.formats.dataclass.parsers import XmlParser
 from xsdata.formats.dataclass.parsers.config import ParserConfig
 from xsdata.formats.dataclass.serializers import XmlSerializer
@@ -121,6 +123,9 @@ class NdmXmlIo:
         if self.parser is None:
             self.__init_parser()
 
+        # XML declaration is only valid at the very beginning
+        xml_source = xml_source.strip()
+
         # Identify data type of the string (Oem, Apm etc.)
         data_type, ndm_combi = _identify_data_type(xml_source)
 
@@ -135,7 +140,7 @@ class NdmXmlIo:
                     subclazz = type(ndm_item).__subclasses__()[0]
                     ndm_item.__class__ = subclazz
 
-        if ndm_combi is False:
+        if ndm_combi is False or not isinstance(ndm, Ndm):
             # Usual single element file
             return ndm
         else:
@@ -252,7 +257,12 @@ def _identify_data_type(xml_source):
             root = ElementTree.XML(xml_source)
         # find data type
         data_type = _NdmDataType.find_element(root.tag).clazz
-    except (ElementTree.ParseError, AttributeError):
+    except ElementTree.ParseError:
+        # tolerate undeclared prefixes (e.g. xsi) but refuse malformed data
+        _check_well_formed(xml_source)
+        ndm_combi = True
+        data_type = Ndm
+    except AttributeError:
         # auto identify failed, try NDM (Combined Instantiation)
         ndm_combi = True
         data_type = Ndm
@@ -260,6 +270,27 @@ def _identify_data_type(xml_source):
     return data_type, ndm_combi
 
 
+def _check_well_formed(xml_source):
+    """
+    Checks that the XML data is well-formed (the XML parser recovers from errors
+    and would return partial content).
+
+    Parameters
+    ----------
+    xml_source : str
+        NDM Data as XML string
+
+    Raises
+    ------
+    ParserError
+        XML data is not well-formed.
+    """
+    try:
+        expat.ParserCreate().Parse(xml_source, True)
+    except expat.ExpatError as err:
+        raise ParserError(f"XML data is not well-formed: {err}") from err
+
+
 def _strip_multi_ndm(ndm):
     """
     Identifies whether the Combined Instantiation NDM actually contains
-- 
2.43.0


From ce3ac10dbe45bc0ecc8f566ac6c93425d080181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:28 +0000
Subject: [PATCH 09/26] fix: write TDM angle observations to KVN

---
 ccsds_ndm/ndm_kvn_io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 565eff6..58ece11 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1636,11 +1636,15 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
         item_key, item_value = [
             (k, v)
             for k, v in vars(ndm_obj).items()
-            if isinstance(v, Decimal) and k != "epoch"
+            if v is not None and k != "epoch"
         ][0]
 
         return [
-            _fill_str_out_multi_kvn(item_key, vars(ndm_obj)["epoch"], str(item_value))
+            _fill_str_out_multi_kvn(
+                item_key,
+                vars(ndm_obj)["epoch"],
+                str(getattr(item_value, "value", item_value)),
+            )
         ]
 
     if type(ndm_obj) is OemCovarianceMatrixType:
-- 
2.43.0


From 38e1d8e4ec65874c3841d998fa10d42e9ff5c57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:31 +0000
Subject: [PATCH 10/26] fix: write the quaternion derivatives of an AEM to KVN

---
 ccsds_ndm/ndm_kvn_io.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 58ece11..6cd83c9 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1603,19 +1603,19 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
                     if quat_last:
                         line.extend(
                             [
-                                str(rot_objects[0]["q1_dot"]),
-                                str(rot_objects[0]["q2_dot"]),
-                                str(rot_objects[0]["q3_dot"]),
-                                str(rot_objects[0]["qc_dot"]),
+                                str(rot_objects[1]["q1_dot"].value),
+                                str(rot_objects[1]["q2_dot"].value),
+                                str(rot_objects[1]["q3_dot"].value),
+                                str(rot_objects[1]["qc_dot"].value),
                             ]
                         )
                     else:
                         line.extend(
                             [
-                                str(rot_objects[0]["qc_dot"]),
-                                str(rot_objects[0]["q1_dot"]),
-                                str(rot_objects[0]["q2_dot"]),
-                                str(rot_objects[0]["q3_dot"]),
+                                str(rot_objects[1]["qc_dot"].value),
+                                str(rot_objects[1]["q1_dot"].value),
+                                str(rot_objects[1]["q2_dot"].value),
+                                str(rot_objects[1]["q3_dot"].value),
                             ]
                         )
             else:
-- 
2.43.0


From 4bb353467cd435e39c256840b3c005714b90874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:33 +0000
Subject: [PATCH 11/26] fix: read and write the spin attitude types of an AEM
 in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 6cd83c9..a3351b5 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -36,6 +36,8 @@ from ccsds_ndm.models.ndmxml2 import (
     QuaternionDerivativeType,
     QuaternionEulerRateType,
     Rdm,
+    SpinNutationType,
+    SpinType,
     StateVectorAccType,
     Tdm,
     TdmData,
@@ -992,6 +994,13 @@ class NdmKvnIo:
                 else:
                     kw_template.extend(["Q1_DOT", "Q2_DOT", "Q3_DOT", "QC_DOT"])
 
+        if att_type_key.startswith("SPIN"):
+            kw_template.extend(
+                ["SPIN_ALPHA", "SPIN_DELTA", "SPIN_ANGLE", "SPIN_ANGLE_VEL"]
+            )
+            if att_type_key.endswith("NUTATION"):
+                kw_template.extend(["NUTATION", "NUTATION_PER", "NUTATION_PHASE"])
+
         if att_type_key.startswith("EULER") or att_type_key.endswith("RATE"):
             eu_type_line_index = self._keys.index(
                 "EULER_ROT_SEQ", root_ndm_elem.min_max.max
@@ -1618,6 +1627,9 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
                                 str(rot_objects[1]["q3_dot"].value),
                             ]
                         )
+            elif isinstance(att_obj[0], (SpinType, SpinNutationType)):
+                # process spin - the objects are directly the values
+                line = [str(rot_object["value"]) for rot_object in rot_objects]
             else:
                 # process normally - extract values from the rot objects
                 line = [
-- 
2.43.0


From d55b037cdcd26898c1bb67489312ffa72674555f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:36 +0000
Subject: [PATCH 12/26] fix: accept the lower case AEM attitude and quaternion
 types in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index a3351b5..3e0bda2 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -972,7 +972,7 @@ class NdmKvnIo:
         att_type_line_index = self._keys.index(
             "ATTITUDE_TYPE", root_ndm_elem.min_max.max
         )
-        att_type_key = self._lines[att_type_line_index][1]
+        att_type_key = self._lines[att_type_line_index][1].upper()
         att_type_value = self.__att_types.get(att_type_key)
 
         kw_template = ["EPOCH"]
@@ -981,7 +981,7 @@ class NdmKvnIo:
             q_type_line_index = self._keys.index(
                 "QUATERNION_TYPE", root_ndm_elem.min_max.max
             )
-            q_type_key = self._lines[q_type_line_index][1]
+            q_type_key = self._lines[q_type_line_index][1].upper()
 
             if q_type_key == "FIRST":
                 kw_template.extend(["QC", "Q1", "Q2", "Q3"])
@@ -1583,7 +1583,7 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
                     x for x in reversed(out_str) if x.startswith("QUATERNION_TYPE")
                 ).split("=")[-1]
 
-                quat_last = True if quat_type.strip().startswith("LAST") else False
+                quat_last = True if quat_type.strip().upper() == "LAST" else False
 
                 if quat_last:
                     line = [
-- 
2.43.0


From 93c83aef08687ae73c5b80f0ce722c138e03b6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:12 +0000
Subject: [PATCH 13/26] fix: write the comments of an OEM covariance with the
 COMMENT keyword

---
 ccsds_ndm/ndm_kvn_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 3e0bda2..ae61928 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1662,7 +1662,9 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
     if type(ndm_obj) is OemCovarianceMatrixType:
         lines = []
         # comment line
-        lines.extend([_fill_str_out_kvn(key, comment) for comment in ndm_obj.comment])
+        lines.extend(
+            [_fill_str_out_kvn("comment", comment) for comment in ndm_obj.comment]
+        )
 
         lines.append(_fill_str_out_kvn("epoch", ndm_obj.epoch))
 
-- 
2.43.0


From 1dedde01074a34aa6366076f81e86db68e256042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:14 +0000
Subject: [PATCH 14/26] fix: write a comment of several lines as several KVN
 comments

---
 ccsds_ndm/ndm_kvn_io.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index ae61928..ad02ac6 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -336,7 +336,7 @@ class NdmKvnIo:
             out_str.append(_fill_str_out_kvn(key, ndm_object))
         elif key == "comment":
             # comment line
-            out_str.extend([_fill_str_out_kvn(key, comment) for comment in ndm_object])
+            out_str.extend(_collate_comments_str_out(ndm_object))
         elif (
             getattr(ndm_object, "__dict__", False)
             and ("value" and "units") in vars(ndm_object).keys()
@@ -1449,6 +1449,28 @@ def _fill_str_out_kvn(key, value, unit=None):
     return new_line
 
 
+def _collate_comments_str_out(comments):
+    """
+    Fills the comment lines, a comment that spans multiple lines is split.
+
+    Parameters
+    ----------
+    comments : List[str]
+        list of comments
+
+    Returns
+    -------
+    List[str]
+        comment lines
+
+    """
+    return [
+        _fill_str_out_kvn("comment", line.strip())
+        for comment in comments
+        for line in comment.strip().split("\n")
+    ]
+
+
 def _fill_str_out_multi_kvn(key, value1, value2):
     """
     Fills a line in standard 'key = value value' triplet format.
@@ -1662,9 +1684,7 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
     if type(ndm_obj) is OemCovarianceMatrixType:
         lines = []
         # comment line
-        lines.extend(
-            [_fill_str_out_kvn("comment", comment) for comment in ndm_obj.comment]
-        )
+        lines.extend(_collate_comments_str_out(ndm_obj.comment))
 
         lines.append(_fill_str_out_kvn("epoch", ndm_obj.epoch))
 
-- 
2.43.0


From dc1084cfd75dd84ebb907ee5ddfaae34a0d6f65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:25 +0000
Subject: [PATCH 15/26] fix: keep square brackets at the end of KVN text values

---
 ccsds_ndm/ndm_kvn_io.py | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index ad02ac6..2f139b8 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -446,8 +446,12 @@ class NdmKvnIo:
                 # split the data lines with "=" as delimiter
                 line = line.split("=", maxsplit=1)
 
-                # parse data lines with units
-                if len(line) == 2 and line[1].rstrip().endswith("]"):
+                # parse data lines with units (text may end with square braces too)
+                if (
+                    len(line) == 2
+                    and line[1].rstrip().endswith("]")
+                    and not _is_text_keyword(line[0].strip())
+                ):
                     text = line[1]
                     splitter_index = line[1].find("[")
                     if splitter_index >= 0:
@@ -1213,6 +1217,36 @@ def _is_class(field_name):
     return True
 
 
+def _extract_text_keywords(clazz):
+    """
+    Extracts the keywords with free text values in the class and all its subclasses.
+    """
+    text_keywords = set()
+    for field_name in vars(clazz).get("__dataclass_fields__", {}).values():
+        if not _is_id_or_version(field_name.name):
+            field_class = field_name.type.__args__[0]
+            if field_class is str and "pattern" not in field_name.metadata:
+                text_keywords.add(field_name.metadata.get("name"))
+            else:
+                text_keywords |= _extract_text_keywords(field_class)
+    return text_keywords
+
+
+_text_keywords = {
+    keyword
+    for ndm_data in _NdmDataType
+    for keyword in _extract_text_keywords(ndm_data.clazz)
+}
+"""Set of keywords with free text values (hence without units)."""
+
+
+def _is_text_keyword(key):
+    """
+    Checks whether the `key` corresponds to a free text value.
+    """
+    return key in _text_keywords or key.startswith("USER_DEFINED_")
+
+
 def _get_index(key, keys, *args):
     """
     Gets the first index belonging to the `key`.
-- 
2.43.0


From 3f106055ff423a2ddef5ccabc28cc89041d19032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:44 +0000
Subject: [PATCH 16/26] fix: read all comments in front of the data rows of KVN
 files

---
 ccsds_ndm/ndm_kvn_io.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 2f139b8..a220a71 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -30,6 +30,7 @@ from ccsds_ndm.models.ndmxml2 import (
     Ndm,
     Oem,
     OemCovarianceMatrixType,
+    OemData,
     OemMetadata,
     Omm,
     Opm,
@@ -128,6 +129,9 @@ _special_output_data_classes = [
     AttitudeStateType,
 ]
 
+_row_data_classes = [AemData, OemData, TdmData]
+"""List of data classes that start with data rows after the comments."""
+
 _deleted_keywords = {
     Oem: ["META_START", "META_STOP", "COVARIANCE_START", "COVARIANCE_STOP"],
     Aem: ["META_START", "META_STOP", "DATA_START", "DATA_STOP"],
@@ -648,6 +652,7 @@ class NdmKvnIo:
                 keys,
                 prefix=prefix,
                 single_elem=root_ndm_elem.single_elem,
+                row_data=root_ndm_elem.clazz in _row_data_classes,
             )
 
         # set index to end of keywords
@@ -1296,12 +1301,14 @@ def _get_ccsds_kw_list(clazz):
         return []
 
 
-def __process_comment_lines(tags, start_index, keys, index_list):
+def __process_comment_lines(tags, start_index, keys, index_list, row_data=False):
     """
     Process comments with the following algorithm:
         1. If there are no COMMENT tags in the class, skip processing
         2. If there is only COMMENT tag in the class, add a single line of comment,
-           if available (indicates a container type class like data or metadata)
+           if available (indicates a container type class like data or metadata).
+           If the container is followed by data rows, which cannot claim any comments,
+           add all the consecutive comments.
         3. If all tags are empty, skip processing; the comments likely belong to another
            block later on in the file
         4. If some tags are filled, add all comments between `start_index` and
@@ -1310,8 +1317,11 @@ def __process_comment_lines(tags, start_index, keys, index_list):
     if "COMMENT" in tags:
         if len(tags) == 1:
             # no tags, this is a header sort of class, claim just one COMMENT tag, if available
-            if keys[start_index] == "COMMENT":
-                index_list.extend([start_index])
+            while start_index < len(keys) and keys[start_index] == "COMMENT":
+                index_list.append(start_index)
+                start_index += 1
+                if not row_data:
+                    break
 
         elif len(index_list) > 0:
             # some data is available, claim all comments between start_index and max_index
@@ -1327,7 +1337,9 @@ def __process_comment_lines(tags, start_index, keys, index_list):
             index_list.extend(comment_indexes)
 
 
-def _get_min_max_indices(tags, start_index, keys, prefix=None, single_elem=None):
+def _get_min_max_indices(
+    tags, start_index, keys, prefix=None, single_elem=None, row_data=False
+):
     """
     Gets the min/max indices of the section.
 
@@ -1352,7 +1364,7 @@ def _get_min_max_indices(tags, start_index, keys, prefix=None, single_elem=None)
     ]
 
     # add all comment lines
-    __process_comment_lines(tags, start_index, keys, index_list)
+    __process_comment_lines(tags, start_index, keys, index_list, row_data)
 
     # check for non-consecutive data and chop them if necessary
     if index_list:
-- 
2.43.0


From 7c11953d2742354de047822f718237ad6e877c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:48 +0000
Subject: [PATCH 17/26] fix: do not take keywords of a later segment when
 reading multi-segment KVN files

---
 ccsds_ndm/ndm_kvn_io.py | 44 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index a220a71..8bf6f82 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -207,6 +207,9 @@ class NdmKvnIo:
         #  Identify data type
         ndm_class = _identify_data_type(self._lines)
 
+        # Locate the segments (before the keywords marking them are deleted)
+        self._segment_starts = self._find_segment_starts(ndm_class)
+
         # Delete unnecessary keywords if necessary
         if ndm_class in _deleted_keywords.keys():
             deleted_keys = _deleted_keywords.get(ndm_class)
@@ -480,6 +483,38 @@ class NdmKvnIo:
         # extract keywords for easy access
         self._keys = [line[0] for line in lines]
 
+    def _find_segment_starts(self, root_class):
+        """
+        Finds the indices of the lines where the segments begin, not counting
+        the keywords to be deleted.
+
+        Comments just before the segment are within the segment.
+
+        Parameters
+        ----------
+        root_class
+            Root class of type Omm, Aem, Cdm etc.
+
+        Returns
+        -------
+        List[int]
+            Indices of the lines where the segments begin
+        """
+        start_key = "OBJECT" if root_class is Cdm else "META_START"
+        deleted_keys = _deleted_keywords.get(root_class, [])
+
+        segment_starts = []
+        index = 0
+        comment_count = 0
+        for key in self._keys:
+            if key == start_key:
+                segment_starts.append(index - comment_count)
+            if key not in deleted_keys:
+                index += 1
+                comment_count = comment_count + 1 if key == "COMMENT" else 0
+
+        return segment_starts
+
     def _init_object_map(self, root_class):
         """
         Initialises and fills the internal object map using the class information.
@@ -771,9 +806,16 @@ class NdmKvnIo:
             else:
                 clean_obj = deepcopy(subclass)
 
+            # a segment ends where the next one begins
+            end_index = len(lines)
+            if subclass.name == "segment":
+                end_index = min(
+                    [i for i in self._segment_starts if i > init_index] or [end_index]
+                )
+
             # identify subclasses and find limits
             max_index, subclass_min_max = self.__identify_sub_segments(
-                clean_obj, keys, lines, init_index
+                clean_obj, keys[:end_index], lines[:end_index], init_index
             )
 
             if max_index == subclass_min_max.min == subclass_min_max.max:
-- 
2.43.0


From 858e296f511619599e11730a5ec1b2e33270cf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:05 +0000
Subject: [PATCH 18/26] fix: keep repeated user-defined parameters when reading
 KVN

---
 ccsds_ndm/ndm_kvn_io.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 8bf6f82..7a27868 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1405,6 +1405,14 @@ def _get_min_max_indices(
         index_name[1] for index_name in index_named_list if index_name[1] is not None
     ]
 
+    if prefix:
+        # the same parameter may be present more than once
+        index_list = [
+            i
+            for i, key in enumerate(keys[start_index:], start=start_index)
+            if key.startswith(prefix)
+        ]
+
     # add all comment lines
     __process_comment_lines(tags, start_index, keys, index_list, row_data)
 
-- 
2.43.0


From ea3056907efb490d41c98635ced977a06eb44261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:05 +0000
Subject: [PATCH 19/26] fix: leave optional blocks without content unset when
 reading KVN

---
 ccsds_ndm/ndm_kvn_io.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 7a27868..ae6f434 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -935,6 +935,9 @@ class NdmKvnIo:
                     getattr(ndm_object, subclass.name).append(subobject)
             else:
                 # this is not a list, just replace the data
+                if _is_empty(subobject) and not _is_required(ndm_object, subclass.name):
+                    # optional element without any content
+                    subobject = None
                 setattr(ndm_object, subclass.name, subobject)
 
         return ndm_object
@@ -1229,6 +1232,22 @@ def _identify_special_sub_segments(root_ndm_elem, keys, lines, init_index, prefi
         )
 
 
+def _is_empty(ndm_object):
+    """
+    Returns `True` if the `ndm_object` is a class without any content.
+    """
+    return hasattr(ndm_object, "__dataclass_fields__") and all(
+        elem is None or elem == [] for elem in vars(ndm_object).values()
+    )
+
+
+def _is_required(ndm_object, name):
+    """
+    Returns `True` if the element `name` of the `ndm_object` is mandatory.
+    """
+    return ndm_object.__dataclass_fields__[name].metadata.get("required", False)
+
+
 def _is_list(field_name):
     """
     Returns `True` if `field_name.default_factory` is of the type list.
-- 
2.43.0


From 314eeae14409a2def9427ff5139b7df0b726e01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:07 +0000
Subject: [PATCH 20/26] fix: separate long epochs from the value in KVN
 tracking data

---
 ccsds_ndm/ndm_kvn_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index ae6f434..e35d88e 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1607,7 +1607,7 @@ def _fill_str_out_multi_kvn(key, value1, value2):
     """
 
     # standard 'key = value' pair or similar (e.g. comment)
-    new_line = f"{key.upper():<20} = {str(value1):<30}{str(value2)} "
+    new_line = f"{key.upper():<20} = {str(value1):<29} {str(value2)} "
 
     return new_line
 
-- 
2.43.0


From c52bc9aecf9480410c156a2331cfa552bbd9d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:47 +0000
Subject: [PATCH 21/26] fix: recognise tabs between the columns of KVN data
 rows

---
 ccsds_ndm/ndm_kvn_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index e35d88e..81c92f7 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1445,7 +1445,7 @@ def _get_min_max_indices(
         # or it has numerical data in between (which is separated by spaces).
         # If latter case holds, delete the numerical data and the rest.
         if diff_list:
-            containing_spaces = any(" " in keys[n] for n in diff_list)
+            containing_spaces = any(len(keys[n].split()) > 1 for n in diff_list)
 
             # find repeating data
             diff_list_keys = [keys[i] for i in diff_list]
-- 
2.43.0


From 4532959c932e0133932b2b3c1aa72496c6a46b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:42 +0000
Subject: [PATCH 22/26] fix: refuse unsupported output formats with a
 ValueError

---
 ccsds_ndm/ndm_io.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ccsds_ndm/ndm_io.py b/ccsds_ndm/ndm_io.py
index 88a73c9..a0cdeb4 100644
--- a/ccsds_ndm/ndm_io.py
+++ b/ccsds_ndm/ndm_io.py
@@ -135,6 +135,10 @@ class NdmIo:
                 "JSON input has not been defined in the CCSDS standard."
             )
 
+        raise ValueError(
+            "NDM output format is not supported (valid formats: KVN or XML)"
+        )
+
     def to_file(self, ndm_obj, data_format, xml_write_file_path, **kwargs):
         """
         Convert and return the given object tree as output file.
@@ -164,6 +168,10 @@ class NdmIo:
                 "JSON input has not been defined in the CCSDS standard."
             )
 
+        raise ValueError(
+            "NDM output format is not supported (valid formats: KVN or XML)"
+        )
+
 
 def _identify_data_format(ndm_data_source):
     """
-- 
2.43.0


From 8d596105d33069d27ddd86ce0d62df0f6ebfd954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:52 +0000
Subject: [PATCH 23/26] fix: write an empty covariance reference frame to KVN

---
 ccsds_ndm/ndm_kvn_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 81c92f7..5d7c8b2 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1803,7 +1803,7 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
 
         lines.append(_fill_str_out_kvn("epoch", ndm_obj.epoch))
 
-        if ndm_obj.cov_ref_frame:
+        if ndm_obj.cov_ref_frame is not None:
             lines.append(_fill_str_out_kvn("cov_ref_frame", ndm_obj.cov_ref_frame))
 
         max_elems = 1
-- 
2.43.0


From dd8a66530073b9de0024fb7376a2b4233f271680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:54 +0000
Subject: [PATCH 24/26] fix: keep an existing file when the text of a message
 cannot be encoded

---
 ccsds_ndm/ndm_kvn_io.py | 6 +++---
 ccsds_ndm/ndm_xml_io.py | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 5d7c8b2..a9d5b4e 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -236,9 +236,9 @@ class NdmKvnIo:
         kvn_write_file_path : Path
             Path of the XML file to be written
         """
-        Path(kvn_write_file_path).write_text(
-            self.to_string(ndm_obj), encoding="utf-8"
-        )
+        # encode before the file is opened, a failure leaves an existing file as it is
+        kvn_data = self.to_string(ndm_obj).encode("utf-8")
+        Path(kvn_write_file_path).write_bytes(kvn_data)
 
     def to_string(self, ndm_obj):
         """
diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index a14fcc7..9932942 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -202,7 +202,9 @@ class NdmXmlIo:
             no_namespace_schema_location=no_namespace_schema_location,
             schema_location=schema_location,
         )
-        Path(xml_write_file_path).write_text(xml_txt, encoding="utf-8")
+        # encode before the file is opened, a failure leaves an existing file as it is
+        xml_data = xml_txt.encode("utf-8")
+        Path(xml_write_file_path).write_bytes(xml_data)
 
     def __init_parser(self):
         """
-- 
2.43.0


From 6487d2fe759327e2bf7cea5884fc3f2e815af8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:58 +0000
Subject: [PATCH 25/26] fix: XML text read with the encoding of its
 declaration, up to the first processing instruction

---
 ccsds_ndm/ndm_xml_io.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index 9932942..8419bec 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -13,6 +13,7 @@ from enum import Enum
 from pathlib import Path
 from xml.parsers import expat
 
+from lxml import etree
 from xsdata.exceptions import ParserError
 from xsdata.formats.dataclass.parsers import XmlParser
 from xsdata.formats.dataclass.parsers.config import ParserConfig
@@ -129,7 +130,7 @@ class NdmXmlIo:
         # Identify data type of the string (Oem, Apm etc.)
         data_type, ndm_combi = _identify_data_type(xml_source)
 
-        ndm = self.parser.from_string(xml_source)
+        ndm = self.parser.parse(_parse_tree(xml_source))
 
         # if the file is NDM, downcast the elements to their respective subclasses
         if isinstance(ndm, Ndm):
@@ -272,6 +273,32 @@ def _identify_data_type(xml_source):
     return data_type, ndm_combi
 
 
+def _parse_tree(xml_source):
+    """
+    Parses the XML string to an element tree.
+
+    Parameters
+    ----------
+    xml_source : str
+        NDM Data as XML string
+
+    Returns
+    -------
+    ElementTree
+        Element tree of the XML string
+    """
+    # the string is already decoded, the encoding in the XML declaration is not valid
+    # any more; a text ends at the first processing instruction if they are not removed
+    xml_parser = etree.XMLParser(
+        encoding="utf-8",
+        recover=True,
+        remove_comments=True,
+        remove_pis=True,
+        huge_tree=True,
+    )
+    return etree.fromstring(xml_source.encode("utf-8"), xml_parser).getroottree()
+
+
 def _check_well_formed(xml_source):
     """
     Checks that the XML data is well-formed (the XML parser recovers from errors
-- 
2.43.0


From c5faf7c3da164b7e94e984e37a13307c165e4a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:57 +0000
Subject: [PATCH 26/26] fix: keep the case of user-defined parameter names in
 KVN

---
 ccsds_ndm/ndm_kvn_io.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index a9d5b4e..e0e9430 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -382,7 +382,7 @@ class NdmKvnIo:
             out_str.extend(
                 [
                     _fill_str_out_kvn(
-                        key + "_" + user_def.parameter, user_def.value or ""
+                        key, user_def.value or "", suffix="_" + user_def.parameter
                     )
                     for user_def in ndm_object
                 ]
@@ -1535,7 +1535,7 @@ def _xmlify_list(root_tag, item_list, prefix=None):
     return etree.tostring(root, pretty_print=True)
 
 
-def _fill_str_out_kvn(key, value, unit=None):
+def _fill_str_out_kvn(key, value, unit=None, suffix=""):
     """
     Fills a line in standard 'key = value' pair or 'key = value [unit]' triplet format.
 
@@ -1547,6 +1547,8 @@ def _fill_str_out_kvn(key, value, unit=None):
         value
     unit : str or None
         unit (if available)
+    suffix : str
+        end of the key that keeps its case (e.g. the name of a user defined parameter)
 
     Returns
     -------
@@ -1554,12 +1556,14 @@ def _fill_str_out_kvn(key, value, unit=None):
         'key = value' pair or 'key = value [unit]' triplet
 
     """
+    keyword = key.upper() + suffix
+
     if unit:
         # standard 'key = value [unit]' triplet
-        new_line = f"{key.upper():<20} = {str(value):<18}[{unit}]"
+        new_line = f"{keyword:<20} = {str(value):<18}[{unit}]"
     else:
         # standard 'key = value' pair or similar (e.g. comment)
-        new_line = f"{key.upper():<20} = {str(value)}"
+        new_line = f"{keyword:<20} = {str(value)}"
 
     return new_line
 
-- 
2.43.0

