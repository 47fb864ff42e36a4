CONSTANTS MaxSteps = 8
MaxCheckpoints = 5
SPECIFICATION Spec
INVARIANTS TypeOK InOrder Memory NothingCheaper
CONSTRAINT Cheaper
CHECK_DEADLOCK FALSE
