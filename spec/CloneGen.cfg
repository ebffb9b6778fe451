INIT Init
NEXT Next
CONSTANTS Depth = 2
INVARIANTS NotTooDeep
CHECK_DEADLOCK FALSE
