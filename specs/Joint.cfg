SPECIFICATION Spec
INVARIANTS TypeOK InvCalls
PROPERTIES Apart
CHECK_DEADLOCK FALSE
