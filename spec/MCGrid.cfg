CONSTANT MAXB = 4
INIT Init
NEXT Next
INVARIANTS Bijection Inside Distinct OwnNearest Export
CHECK_DEADLOCK FALSE
