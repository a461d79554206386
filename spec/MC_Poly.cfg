CONSTANTS D = 2 K = 2 M = 5
SPECIFICATION Spec
INVARIANTS HullAgrees RoundTrip
CHECK_DEADLOCK FALSE
