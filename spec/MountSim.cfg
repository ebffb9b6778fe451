INIT Init
NEXT NextSim
CONSTANTS MaxTags = 4
          MaxSock = 6
          MaxCount = 5
          Depth = 26
          Cfgs = "large"
INVARIANTS Sound
CHECK_DEADLOCK FALSE
