INIT Init
NEXT NextSim
CONSTANTS Handl = {1, 2, 3}
          MaxSend = 30
          MaxSock = 12
          Depth = 30
          Cfgs = 0
INVARIANTS Sound
CHECK_DEADLOCK FALSE
