INIT Init
NEXT NextSim
CONSTANTS Keys = {"k", "l", "m"}
          Depth = 22
          Srcs = {"A", "B", "C"}
          Names = {"Main", "Other.Inner", "Missing", "Other.Missing", "Gone.Inner", "Other.Gone.Deep"}
          KidKinds = {"none", "text", "el", "same", "other", "fragment", "lost"}
          Binds = {"own", "preact", "react", "half", "no-create", "no-render", "no-unmount"}
INVARIANTS Good
CHECK_DEADLOCK FALSE
