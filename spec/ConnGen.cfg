INIT Init
NEXT Next
VIEW View
CONSTANTS Handl = {1, 2}
          MaxSend = 3
          MaxSock = 3
          Depth = 99
          Cfgs = 0
INVARIANTS Sound
CHECK_DEADLOCK FALSE
