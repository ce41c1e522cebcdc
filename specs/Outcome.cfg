SPECIFICATION Spec
INVARIANTS InvIndent InvBrackets InvFrozen InvTries InvBalance InvProgress
CHECK_DEADLOCK FALSE
