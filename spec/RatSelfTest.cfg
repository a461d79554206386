CONSTANT N = 4
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
