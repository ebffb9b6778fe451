INIT Init
NEXT Next
VIEW View
CONSTANTS Slots = {1}
          Paths = {"a", "b", "unknown"}
          Locs = {1, 2}
          MaxCount = 2
          MaxGen = 2
          Depth = 99
INVARIANTS Sound
PROPERTIES Isolated
CHECK_DEADLOCK FALSE
