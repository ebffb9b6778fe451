INIT Init
NEXT Next
VIEW View
CONSTANTS Keys = {"k"}
          Depth = 99
          Srcs = {"A", "C"}
          Names = {"Main", "Missing"}
          KidKinds = {"none", "other", "fragment"}
          Binds = {"own", "preact", "react", "no-create"}
INVARIANTS Good
CHECK_DEADLOCK FALSE
