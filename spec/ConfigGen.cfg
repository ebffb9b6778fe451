INIT Init
NEXT Next
INVARIANTS OwnWins Follows
CHECK_DEADLOCK FALSE
