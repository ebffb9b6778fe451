INIT Init
NEXT Next
VIEW View
CONSTANTS MaxEv = 2
          MaxUp = 2
          Deltas = {3}
          Depth = 99
INVARIANTS Sure
CHECK_DEADLOCK FALSE
