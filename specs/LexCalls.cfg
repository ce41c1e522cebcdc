SPECIFICATION Calls
INVARIANTS TypeOK InvIndent InvBrackets InvFrozen InvTiles InvText
CHECK_DEADLOCK FALSE
