SPECIFICATION CSpec
CONSTRAINT ExportTrail
INVARIANTS UniquePaths ReaderFindsFacts ReaderKeepsComments LinesAreFacts XmlBalanced XmlIsFacts XmlReaderFindsFacts
CHECK_DEADLOCK FALSE
