SPECIFICATION Spec
CONSTANT G <- PartG
INVARIANTS InvIndent InvBrackets InvTries InvParts InvBalance
CHECK_DEADLOCK FALSE
