INIT Init
NEXT Next
VIEW View
CONSTANTS MaxU = 4
          MaxM = 4
          Depth = 99
INVARIANTS Sound
CHECK_DEADLOCK FALSE
