CONSTANTS D = 3 K = 1 M = 8
SPECIFICATION Spec
INVARIANTS HullAgrees RoundTrip
CHECK_DEADLOCK FALSE
