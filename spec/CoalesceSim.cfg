INIT Init
NEXT NextSim
CONSTANTS MaxEv = 40
          Deltas = {0, 1, 2, 3, 5, 9}
          Depth = 36
INVARIANTS IsSound
CHECK_DEADLOCK FALSE
