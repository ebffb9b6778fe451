INIT InitSim
NEXT NextSim
CONSTANTS Depth = 9
INVARIANTS Good
CHECK_DEADLOCK FALSE
