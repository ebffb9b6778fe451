INIT InitSim
NEXT NextSim
CONSTANTS Depth = 12
INVARIANTS Good
CHECK_DEADLOCK FALSE
