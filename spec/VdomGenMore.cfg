INIT Init
NEXT Next
CONSTANTS MaxArgs = 2
          Extra = 40000
INVARIANTS Sound
CHECK_DEADLOCK FALSE
