INIT Init
NEXT Next
CONSTANTS Which = 1500
          Mods = 4
INVARIANTS Sound
CHECK_DEADLOCK FALSE
