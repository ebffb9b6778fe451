INIT Init
NEXT NextSim
CONSTANTS MaxEv = 20
          MaxUp = 4
          Deltas = {1, 2, 3, 5}
          Depth = 30
INVARIANTS Sure
CHECK_DEADLOCK FALSE
