INIT Init
NEXT Next
CONSTANTS Deep = 3
          Wide = 4
          Which = 30000
INVARIANTS Sound
CHECK_DEADLOCK FALSE
