INIT GInit
NEXT GNextSim
CONSTANTS MaxN = 14
          MaxCount = 9
          Depth = 24
INVARIANTS OnPageRuns NothingElse
CHECK_DEADLOCK FALSE
