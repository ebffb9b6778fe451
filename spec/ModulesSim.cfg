INIT Init
NEXT NextSim
CONSTANTS Depth = 14
          Names = {"a", "d/b", "@s/c@1.2"}
          Rich = TRUE
INVARIANTS Sound
CHECK_DEADLOCK FALSE
