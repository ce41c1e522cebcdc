SPECIFICATION Spec
INVARIANTS InvIndent InvBrackets InvTries InvParts
CHECK_DEADLOCK FALSE
