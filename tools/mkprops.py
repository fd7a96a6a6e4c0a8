#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording has one home)."""
import json, os
K="ccsds_ndm/ndm_kvn_io.py"; X="ccsds_ndm/ndm_xml_io.py"; I="ccsds_ndm/ndm_io.py"; M="ccsds_ndm/models/ndmxml2/"
def P(id,title,statement,over,text,why,files,mech,observe,state=()):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
props=[
P("C01","Reading KVN captures exactly the content of the message",
 "For every well-formed KVN message of the eight types (AEM, APM, CDM, OEM, OMM, OPM, RDM, TDM), with any subset of optional keywords and sections present, reading yields an object of the matching class in which every keyword line of the file appears exactly once, in the field of the block it stands in, with its value and unit. Nothing is dropped, invented, duplicated or moved to another block, and absent keywords read as absent.",
 ["inputs"],"All eight message types, all subsets of optional keywords and blocks, all repetition counts of repeatable blocks, all values of the documented vocabulary.",
 "The tests read about twenty sample files; which optional keywords are present, and what stands next to them, drives the index search of the reader and is combinatorial.",
 [K,M],[("line pre-processing, segment identification by keyword index, object build",K+": NdmKvnIo.from_string and below"),("keyword vocabulary as dataclass metadata",M)],["NdmKvnIo().from_string(...)","NdmIo().from_string(...)"]),
P("C02","Writing KVN emits every populated field once, in the standard's order",
 "For every message object of the eight types, the KVN text starts with the CCSDS_<type>_VERS line of the supported version and then holds one line per populated field, in schema order, with the literal value, the unit in brackets exactly when the object carries one, and the META/DATA/COVARIANCE markers of the multi-segment formats around the right lines. Fields that are not set produce no line and no line appears that the object does not account for.",
 ["inputs"],"All objects constructible from the message classes with the documented vocabulary, with any subset of optional fields set, zero and negative values included.",
 "The tests only write objects that were read from sample files, so the set of populated fields and units is that of the samples.",
 [K],[("recursive collation of output lines with special header/data classes",K+": NdmKvnIo.to_string and below")],["NdmKvnIo().to_string(obj)","NdmIo().to_string(obj, KVN)"]),
P("C03","KVN write-then-read returns the same message and is a fixpoint",
 "For every message object of the eight types, writing it to KVN and reading the text back gives an equal object, and writing that again gives the identical text. The same holds starting from a text: read, write, read gives an object equal to the first one.",
 ["inputs"],"All message objects and all well-formed KVN texts of the eight types (comments compared in order, since KVN does not mark which of two adjacent blocks a comment belongs to; units of data rows, which KVN does not carry, left out; numerals by value).",
 "Tests round trip the sample files and compare text after stripping; objects with other optional subsets, other attitude types or several segments are not tried.",
 [K],[("reader and writer share the dataclass vocabulary",K)],["NdmKvnIo().from_string(NdmKvnIo().to_string(obj))"]),
P("C04","Reading XML captures exactly the content of the document",
 "For every valid XML message of the eight types, reading yields an object of the matching class holding each element and attribute of the document (value, units, parameter, angle/rate attributes) exactly once in the corresponding field, in document order for repeated elements, with absent elements absent. XML entities, character references, CDATA and non-significant white space do not change the result.",
 ["inputs"],"All eight message types, all subsets of optional elements, all repetition counts, all equivalent XML spellings of the same content.",
 "Tests read each sample XML file and assert a handful of fields; other subsets and spellings are not tried.",
 [X,M],[("xsdata parser over the message dataclasses",X+": NdmXmlIo.from_string")],["NdmXmlIo().from_string(...)","NdmIo().from_string(...)"]),
P("C05","Writing XML emits the schema's document for the object",
 "For every message object, the XML text is a well-formed document whose root is the message element with the fixed id and version attributes, whose elements are the populated fields in schema order with their literal values and attributes, and which carries the requested schema-location attributes. Reading it back gives an equal object.",
 ["inputs"],"All objects of the eight message classes and the combined message, with any subset of optional fields, all schema location settings.",
 "Tests write one file and compare with one stored text; element order, attributes and values for the other classes and subsets are not checked.",
 [X,M],[("xsdata serializer over the message dataclasses",X+": NdmXmlIo.to_string")],["NdmXmlIo().to_string(obj)"]),
P("C06","KVN and XML are two spellings of one message",
 "The same message content given as KVN and as XML reads into equal objects (up to comment placement and units that only one of the two spells out). Converting KVN to XML or XML to KVN through an object loses nothing: reading the converted text gives the object that was converted, and converting back and forth is stable.",
 ["inputs"],"All eight message types and all messages expressible in both formats, in either direction of conversion.",
 "Tests compare formats for a few paired sample files, field by field.",
 [K,X,I],[("both readers build the same dataclasses",K+", "+X)],["NdmIo().from_string / to_string across formats"]),
P("C07","Segments of a multi-segment message are independent and ordered",
 "In OEM, AEM, TDM and CDM files with any number of segments (two objects for a CDM), each segment of the object holds exactly the lines of its own segment, in file order: a keyword, section, comment or data line present in one segment never shows up in, changes the interpretation of, or is taken from another. Optional parts may be present in any subset of the segments, and the count of segments is preserved by reading and writing in KVN and XML.",
 ["inputs"],"All segment counts, all per-segment subsets of optional keywords and sections, all per-segment settings (attitude type, rotation sequence, quaternion order, covariance or none, comments).",
 "The samples have at most a few segments which all populate the same keywords, so an unbounded search past the end of a segment goes unnoticed.",
 [K,X],[("repeated identification of list elements with a moving start index",K+": __identify_list"),("per-segment attitude template",K+": __prepare_aemsegment_sub_objects")],["from_string(...).body.segment","to_string"]),
P("C08","OEM ephemeris and covariance rows keep every number in its place",
 "Every ephemeris row of an OEM maps its columns to epoch, position, velocity and, when present, acceleration in order, and every covariance block maps its lower-triangular rows to the 21 matrix elements with its own epoch, reference frame and comments. The number and order of rows and blocks is preserved by reading and writing in KVN and XML.",
 ["inputs"],"All row counts, with and without accelerations per row, zero or more covariance blocks with or without reference frame and comments, with or without covariance markers, calendar and day-of-year epochs, all numeric spellings.",
 "Tests look at a few elements of one covariance matrix and a few rows of the samples.",
 [K],[("special identification and processing of StateVectorAccType and OemCovarianceMatrixType",K),("special data output",K+": _collate_special_data_str_out")],["Oem.body.segment[i].data"]),
P("C09","AEM attitude rows follow the segment's declared attitude type",
 "Every attitude row of an AEM is read and written according to the attitude type, quaternion order (FIRST or LAST) and rotation sequence declared in the metadata of its own segment: each number ends up in the component, angle or rate of the declared axis, and the kind of attitude state matches the declared type. All seven attitude types and all rotation sequences are supported in both directions, and row count and order are preserved.",
 ["inputs"],"Seven attitude types x quaternion orders x twelve rotation sequences (spelled in either letter case where the standard lists both), any number of rows and segments mixing types.",
 "The samples hold two or three of the type/order/sequence combinations.",
 [K],[("attitude template built from metadata",K+": __prepare_aemsegment_sub_objects, __xmlify_att_segment_data"),("attitude row output",K+": _collate_special_data_str_out")],["Aem.body.segment[i].data.attitude_state"]),
P("C10","TDM observations are kept one by one, in order, with their keyword",
 "Every observation line of a TDM becomes one observation holding the epoch and the value under exactly the keyword of that line, in file order within its segment, for every tracking data keyword of the standard; writing emits them again one line each in the same order. Interleaving of keywords, repeated epochs, equal values and negative or zero values make no difference.",
 ["inputs"],"All tracking data keywords, all interleavings and counts of observations, any number of segments, comments before the observations.",
 "The samples use a third of the keywords in regular patterns.",
 [K],[("special identification and processing of TrackingDataObservationType",K)],["Tdm.body.segment[i].data.observation"]),
P("C11","Comments are kept verbatim, in order, in their block",
 "Every comment of a message is kept: its text is unchanged (including '=', brackets, keywords and markup characters inside it), the order of comments is preserved, and it ends up in the comment list of the block it stands in or directly in front of, for all blocks that may carry comments. Comments never change how the other lines of the message are read, and none is turned into anything else.",
 ["inputs"],"All positions at which the standard allows comments, any number of comments at each, any comment text, all eight types, KVN and XML; reading and writing.",
 "Samples have comments at few positions, nearly always one block at a time; the interaction of comments with keyword search and data rows is combinatorial.",
 [K,X],[("comment claiming rules",K+": __process_comment_lines"),("comment output",K+": _collate_str_out_subclasses")],["comment lists of all blocks"]),
P("C12","User-defined parameters keep name, value, order and multiplicity",
 "Every user-defined parameter of an OPM, OMM or RDM is kept with its exact name, value and position among the others by reading and writing in KVN and XML, whatever the name or value looks like (names containing the prefix, other keywords, brackets or '=' in the value, empty values). They never swallow or disturb the neighbouring blocks.",
 ["inputs"],"All numbers of parameters, all names (upper case in KVN, which writes keywords in upper case) and values, with or without comments around them.",
 "One or two samples have a few plain parameters.",
 [K,M],[("prefix handling of USER_DEFINED_ lines",K+": _get_min_max_indices, _xmlify_list, _collate_str_out_subclasses")],["user_defined_parameters.user_defined"]),
P("C13","Input format and message type are recognised or refused",
 "Whatever text is given, it is treated as XML, KVN or JSON according to its first (and, for XML and JSON, last) significant characters regardless of surrounding white space: each of the eight KVN version keywords and nine XML roots gives an object of its class, JSON raises NotImplementedError, and every other text, including unknown message types and empty input, is refused with an exception and never returns an object. Output to a format that is not supported is refused in the same way.",
 ["inputs"],"All texts; all eight type keywords and nine XML roots, known and unknown roots and version keywords, all kinds of surrounding white space.",
 "Tests try one unrecognisable text and one JSON text.",
 [I,K,X],[("format identification",I+": _identify_data_format"),("type identification",K+": _identify_data_type, "+X+": _identify_data_type")],["NdmIo().from_string/from_bytes/from_path/to_string/to_file"]),
P("C14","A combined message keeps all its members, typed; a single one is unwrapped",
 "Reading a combined (ndm) XML document with several members gives a combined object that holds every member under its message type in document order, each as the same class and with the same content as if it were read alone, plus the message id and comments; if it has exactly one member that member itself is returned. Writing to XML reproduces all members, and writing to KVN is refused with NotImplementedError for several members and equals writing the member for a single one.",
 ["inputs"],"All multisets of member messages of the eight types (zero, one, many; same or different types), with or without message id and comments.",
 "Two samples with fixed members are tested.",
 [X,K],[("downcast and unwrapping",X+": from_string, _strip_multi_ndm, _is_multi_ndm"),("refusal",K+": NdmKvnIo.to_string")],["NdmXmlIo().from_string","NdmKvnIo().to_string","NdmIo"]),
P("C15","All entry points agree",
 "Reading a path (given as text or as a path object), its bytes or its decoded text gives equal objects, through the unified interface and through the format-specific ones, and the file written for an object holds exactly the text returned for it. This holds for any Unicode content and does not depend on the locale of the process.",
 ["inputs","configurations"],"All messages including non-ASCII text, KVN and XML, all entry points, path types, and process locales.",
 "Tests run under one locale with ASCII samples and mostly use one entry point per format.",
 [I,K,X],[("entry points delegate to from_string/to_string",I+", "+K+", "+X)],["from_path, from_bytes, from_string, to_file, to_string of NdmIo, NdmKvnIo, NdmXmlIo"]),
P("C16","Results do not depend on what was done before",
 "The result of every read or write depends only on its own arguments: any sequence of earlier reads and writes, of any types and formats, successful or failed, on the same or on other reader/writer instances, leaves it unchanged. In particular options given to one write (schema locations) apply to that write and to no other.",
 ["histories"],"All histories of reads, writes, failing operations and option settings over shared and fresh instances.",
 "Tests use a fresh instance per operation, in one order.",
 [K,X,I],[("instance and class state",K+": NdmKvnIo._keys, _lines, object_tree, class-level parser; "+X+": parser, serializer")],["NdmIo, NdmKvnIo, NdmXmlIo instances"],
 [("cached parser/serializer","lazily built helpers of an XML reader/writer",X),("_keys, _lines, object_tree","working state of the last KVN read",K)]),
P("C17","Operations leave their inputs and earlier results untouched",
 "Writing never modifies the object being written, and reading never modifies or shares parts with objects returned earlier, so changing one result never changes another; a write that is refused leaves an existing target file as it was. Repeating a write of an unchanged object gives the same text.",
 ["histories","inputs"],"All histories of reads, writes, mutations of results, and refused writes to existing files.",
 "No test looks at the object or the file after a write or a failing write, or mutates a result.",
 [K,X,I],[("object tree rebuilt per read, text rendered before the file is opened",K+", "+X)],["objects returned by from_*", "files written by to_file"]),
P("C18","KVN layout does not matter",
 "Blanks and tabs around keywords, '=', values and units, blank lines, line ends (LF or CRLF), indentation, a trailing newline or none, and an optional '=' after COMMENT never change the object read from a KVN message. The order of blocks and data is what matters, nothing else.",
 ["inputs"],"All layouts of all well-formed KVN messages of the eight types.",
 "Samples have one layout each.",
 [K],[("line pre-processing",K+": _pre_process_kvn_data")],["NdmKvnIo().from_string"]),
P("C19","Values are carried exactly",
 "Numbers keep their exact decimal value whatever their spelling, size or number of digits, through reading, writing and conversion in KVN and XML, including zero, signs and exponents; integers, enumerations in each of their spellings and epochs (calendar or day-of-year, any fraction digits, optional Z) keep their value; and text (a single line without white space around it) keeps every character, including characters with a meaning in XML or KVN ('&', '<', '=', '[', ']', quotes, non-ASCII). A unit is recognised only where the format defines one and never eats part of a text value.",
 ["inputs"],"All decimal, integer, enumeration, epoch and text values in every field that takes them, in both formats.",
 "Samples contain ordinary values only.",
 [K,X],[("line splitting and unit extraction",K+": _pre_process_kvn_data"),("Decimal typed fields",M)],["leaf values of the objects read and texts written"]),
P("C20","Malformed XML messages are refused",
 "An XML document that is not well-formed, or that holds, at any depth, an element the message type does not define there, or repeats an element or block that may occur once, is refused with an exception by every reader, alone or as a member of a combined message. A refused message never yields an object.",
 ["inputs"],"All positions in all nine XML document types: unknown and misplaced elements, repeated elements and blocks, truncations, crossed, renamed and missing tags, text after the end.",
 "No test feeds a malformed document other than unrecognisable text.",
 [X],[("fail_on_unknown_properties parser configuration, well-formedness test",X)],["NdmIo().from_string, NdmXmlIo().from_string raising"]),
P("C21","Readers and writers in use at the same time do not affect each other",
 "Several threads may read and write messages at the same time, each with its own reader or writer or all through one unified NdmIo, also writing the same object: under every interleaving each operation gives the object, text, file or refusal it gives when it runs alone.",
 ["schedules","inputs"],"All interleavings, at any step inside the operations, of two or more reads, writes and refused reads of any types and formats.",
 "The tests run in one thread.",
 [K,X,I],[("working state per instance, none in the module or class",K+": NdmKvnIo instance attributes; "+X+": parser, serializer")],["results of operations running in threads"],
 [("_keys, _lines, object_tree","working state of a KVN read in progress",K),("__xml_parser","parser shared by all instances (must hold no message state)",K)]),
P("C22","Failures of files are reported, and nothing but the target is touched",
 "Reading a path or writing to one either does what was asked or raises an exception: a missing file or directory, a directory in place of a file, a path that cannot exist, a file that is not UTF-8, no free descriptor and no room for the text are reported to the caller, never answered with an object or passed over in silence. Whatever the outcome, no file or directory other than the target of a write is created, changed or removed, no file stays open, nothing is printed on standard output, and the process is as before (working directory, environment, decimal context, locale, recursion limit, warning filters). What failed once does not change the outcome of later operations.",
 ["fault_sequences","histories"],"All states of the file system around a path (missing, file, directory, link, dangling or circular link, over-long or impossible name, missing parent, parent that is a file, contents that are no message), exhausted descriptors and exhausted room at any octet of the text, in any order with successful reads and writes.",
 "The tests read files that exist and write into a fresh directory; nothing fails in them, and they do not look at anything but the file written.",
 [K,X,I],[("reading and writing of whole files",I+", "+K+", "+X+": from_path, to_file")],["from_path and to_file of the three readers/writers; the directory, the descriptors and the process afterwards"]),
P("C23","An operation that is broken off leaves no trace in the library",
 "A read or write that an exception breaks off at any point (an interrupt by the user, for instance) passes that exception on and changes nothing that matters later: neither the message objects involved nor the reader/writer instance nor anything shared by instances, so that every later read and write, with the same instance or another one, gives the result it always gives.",
 ["crash_points","histories"],"All statements of the library at which a read or write of any type and format may be broken off, followed by any operations.",
 "The tests let every operation run to its end.",
 [K,X,I],[("working state of a read or write kept in the instance and set up anew by each operation",K+": from_string and below; "+X+": parser, serializer")],["results of operations after one that was broken off"],
 [("_keys, _lines, object_tree","working state of a KVN read, left half done",K)]),
P("C24","The order of the keywords within a KVN block does not matter",
 "A KVN message whose keyword lines stand in another order within their blocks (header, metadata, state vector, covariance and so on), every line still in its own block and comments where they were, reads into the same object as with the keywords in the order of the standard, and writing that object gives the lines in the order of the standard. Not free are the keywords whose order is content (rotation angles and rates of a rotation sequence, user-defined parameters) and the keyword that begins a repeated block without a start marker (OBJECT in a CDM, MAN_EPOCH_IGNITION and the like).",
 ["inputs"],"All orders of the keyword lines within blocks of all well-formed messages of the eight types.",
 "The samples give the keywords in the order of the standard; every permutation of every subset of the optional keywords is a different search through the remaining lines.",
 [K],[("keywords are looked up within the bounds of a block rather than at the next line",K+": NdmKvnIo.from_string and below")],["NdmKvnIo().from_string(...)","NdmIo().from_string(...)"]),
P("C25","A damaged KVN text is never read as something it does not say",
 "However a KVN message is damaged after its first line (lines or words lost, repeated, moved, cut short, joined, taken from another message, the text ending anywhere), reading it comes to an end and either raises an exception or gives an object of the class that the first line names, in which every number, text, epoch, enumeration, unit and comment stands in the text, on a line with its keyword, or, for the columns of a data row, together on one line. Nothing is made up for what is missing: no default, no value of another keyword, row or message. The outcome is the same each time, through every entry point and whatever the instance read before, and leaves later reads of the instance as they always are.",
 ["inputs","histories"],"All damaged texts, by one damage of any kind at any place or several in a row, of messages of all eight types.",
 "The tests read well-formed samples only; the ways in which a text can be damaged multiply with its places.",
 [K],[("search for the bounds of blocks, rows and lists, and building of the elements found",K+": NdmKvnIo.from_string and below")],["outcome of NdmKvnIo and NdmIo from_string, from_bytes, from_path; all values of the object"]),
]
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
for p in props:
    assert len(p["title"])<=80,p["title"]
with open(out,"w") as f:
    for p in props: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(props))
