SPECIFICATION Spec
INVARIANTS InvIndent InvBrackets InvTries InvParts InvBalance
CHECK_DEADLOCK FALSE
