INIT Init
NEXT Next
CONSTANTS Which = 20000
          Mods = 4
INVARIANTS Sound
CHECK_DEADLOCK FALSE
