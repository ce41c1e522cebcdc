SPECIFICATION Spec
INVARIANTS Emitted InvTries InvParts InvBalance
CHECK_DEADLOCK FALSE
