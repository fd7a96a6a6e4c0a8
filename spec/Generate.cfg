SPECIFICATION Spec
CONSTRAINT Export
INVARIANTS UniquePaths ReaderFindsFacts ReaderKeepsComments LinesAreFacts XmlBalanced XmlIsFacts XmlReaderFindsFacts
CHECK_DEADLOCK FALSE
