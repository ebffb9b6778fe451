INIT Init
NEXT Next
CONSTANTS Extra = 150
INVARIANTS Sound
CHECK_DEADLOCK FALSE
