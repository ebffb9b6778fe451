INIT Init
NEXT Next
CONSTANTS Deep = 3
          Wide = 4
          Which = 1500
INVARIANTS Sound
CHECK_DEADLOCK FALSE
