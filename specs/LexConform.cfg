SPECIFICATION Spec
INVARIANTS TypeOK InvIndent InvBrackets InvFrozen InvTiles InvText InvBalanced
CHECK_DEADLOCK FALSE
