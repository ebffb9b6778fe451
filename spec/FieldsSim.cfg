INIT Init
NEXT NextSim
CONSTANTS MaxEv = 24
          MaxUp = 3
          MaxSess = 4
          Depth = 34
          Cfgs = "large"
INVARIANTS Sure
CHECK_DEADLOCK FALSE
