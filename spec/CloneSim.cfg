INIT InitSim
NEXT NextSim
CONSTANTS Depth = 14
INVARIANTS NotTooDeep
CHECK_DEADLOCK FALSE
