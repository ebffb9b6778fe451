INIT Init
NEXT Next
CONSTANTS Depth = 1
INVARIANTS Good
CHECK_DEADLOCK FALSE
