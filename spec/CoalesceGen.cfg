INIT Init
NEXT Next
VIEW View
CONSTANTS MaxEv = 3
          Deltas = {1, 2, 3}
          Depth = 99
INVARIANTS IsSound
CHECK_DEADLOCK FALSE
