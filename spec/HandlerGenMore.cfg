INIT Init
NEXT Next
CONSTANTS Extra = 3000
INVARIANTS Sound
CHECK_DEADLOCK FALSE
