INIT Init
NEXT Next
VIEW View
CONSTANTS Depth = 4
          Names = {"a"}
          Rich = FALSE
INVARIANTS Sound
CHECK_DEADLOCK FALSE
