INIT Init
NEXT Next
CONSTANTS MaxF = 3
          FK = {"sync", "now", "gate", "gate2", "raise", "araise", "gate_raise", "acallable"}
INVARIANTS Emit Sound
CHECK_DEADLOCK FALSE
