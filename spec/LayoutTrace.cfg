SPECIFICATION TraceSpec
CONSTANT MOD = 5
CHECK_DEADLOCK FALSE
