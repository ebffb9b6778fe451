INIT InitAll
NEXT NextAll
CONSTANTS Depth = 1
          Apps = 1
          Some = 40
INVARIANTS Sound
CHECK_DEADLOCK FALSE
