INIT Init
NEXT NextSim
CONSTANTS MaxU = 30
          MaxM = 8
          Depth = 24
INVARIANTS Sound
CHECK_DEADLOCK FALSE
