INIT Init
NEXT NextSim
CONSTANTS MaxSubs = 2
          Active = {"P", "C", "I", "D"}
          Depth = 25
INVARIANTS Emit TypeOK Frozen ToldCurrent ToldOnce ToldAll Rejects
CHECK_DEADLOCK FALSE
