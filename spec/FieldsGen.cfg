INIT Init
NEXT Next
VIEW View
CONSTANTS MaxEv = 2
          MaxUp = 1
          MaxSess = 2
          Depth = 99
          Cfgs = "small"
INVARIANTS Sure
CHECK_DEADLOCK FALSE
