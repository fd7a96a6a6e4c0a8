SPECIFICATION OSpec
CONSTRAINT ExportOrder
INVARIANTS UniquePaths ReaderFindsFacts ReaderKeepsComments LinesAreFacts
PROPERTIES SameLines SameFacts
CHECK_DEADLOCK FALSE
