CONSTANTS S = 10
R = 60
SPECIFICATION Spec
INVARIANTS ClosedForm AllFit
CHECK_DEADLOCK FALSE
