SPECIFICATION Spec
INVARIANTS InvIndent
CHECK_DEADLOCK FALSE
