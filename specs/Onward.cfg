SPECIFICATION Spec
INVARIANTS InvIndent InvBrackets
PROPERTIES Apart Final
CHECK_DEADLOCK FALSE
