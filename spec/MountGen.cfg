INIT Init
NEXT Next
VIEW View
CONSTANTS MaxTags = 2
          MaxSock = 2
          MaxCount = 1
          Depth = 99
          Cfgs = "small"
INVARIANTS Sound
CHECK_DEADLOCK FALSE
