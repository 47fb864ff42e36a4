SPECIFICATION Spec
INVARIANTS EveryStepLegal ReversedAll
CHECK_DEADLOCK FALSE
