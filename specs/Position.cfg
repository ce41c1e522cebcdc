SPECIFICATION Spec
INVARIANTS InvIndent Inside
PROPERTIES Forward
CHECK_DEADLOCK FALSE
