SPECIFICATION TSpec
INVARIANTS Accepted Snap
CHECK_DEADLOCK FALSE
