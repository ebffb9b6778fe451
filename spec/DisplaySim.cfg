INIT Init
NEXT NextSim
CONSTANTS MaxSize = 22
          Depth = 22
          Small = FALSE
INVARIANTS Good
CHECK_DEADLOCK FALSE
