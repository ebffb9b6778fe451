INIT Init
NEXT Next
CONSTANTS Depth = 25
          Apps = 4
          Some = 1
INVARIANTS Sound
CHECK_DEADLOCK FALSE
