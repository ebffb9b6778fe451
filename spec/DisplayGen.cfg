INIT Init
NEXT Next
VIEW View
CONSTANTS MaxSize = 4
          Depth = 99
          Small = TRUE
INVARIANTS Good
CHECK_DEADLOCK FALSE
