SPECIFICATION Spec
CONSTANTS MaxF = 3
 MaxN = 2
 MaxS = 3
 Rs = {0, 1}
 MaxB = 2
 Fill = FALSE
PROPERTY Finishes
PROPERTY Contributes
INVARIANT TotalRight
CHECK_DEADLOCK FALSE
