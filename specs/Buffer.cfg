SPECIFICATION Spec
INVARIANT InvCursor
PROPERTY MoveOne
CHECK_DEADLOCK FALSE
