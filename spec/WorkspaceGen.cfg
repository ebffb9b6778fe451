INIT GInit
NEXT GNext
VIEW View
CONSTANTS MaxN = 4
          MaxCount = 1
          Depth = 0
INVARIANTS OnPageRuns NothingElse
CHECK_DEADLOCK FALSE
