INIT Init
NEXT Next
INVARIANTS Pyth Shift Inv Dbl Sq Hyp Ex RotOk
CHECK_DEADLOCK FALSE
