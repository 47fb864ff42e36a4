CONSTANTS MaxSteps = 40
MaxCheckpoints = 12
SPECIFICATION BSpec
INVARIANTS TypeOK InOrder Memory Optimal NeverStuck Terminates
PROPERTY Refines
CHECK_DEADLOCK FALSE
