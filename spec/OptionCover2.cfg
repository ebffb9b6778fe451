INIT Init
NEXT Next
VIEW View
CONSTANTS MaxSubs = 1
          Active = {"I", "D"}
          Depth = 99
INVARIANTS TypeOK Frozen ToldCurrent ToldOnce ToldAll Rejects
CHECK_DEADLOCK FALSE
