SPECIFICATION Spec
INVARIANTS AllMembersKept InDocumentOrder HeaderKept OnlySingleIsUnwrapped KvnOfOneOnly RewriteIsSame Export
CHECK_DEADLOCK FALSE
