INIT Init
NEXT NextSim
CONSTANTS Slots = {1, 2, 3}
          Paths = {"a", "b", "unknown"}
          Locs = {1, 2, 3}
          MaxCount = 100
          MaxGen = 100
          Depth = 26
INVARIANTS Sound
PROPERTIES Isolated
CHECK_DEADLOCK FALSE
