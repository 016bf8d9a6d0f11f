CONSTANT N = 3
INIT Init
NEXT Next
INVARIANT EgoIsPlanners
INVARIANT NeverTakenOver
INVARIANT LastWins
INVARIANT UnclaimedReplay
INVARIANT Report
CHECK_DEADLOCK FALSE
