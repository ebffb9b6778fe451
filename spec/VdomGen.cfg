INIT Init
NEXT Next
CONSTANTS MaxArgs = 2
          Extra = 1500
INVARIANTS Sound
CHECK_DEADLOCK FALSE
