CONSTANTS Args = {0, 1, 2, 3}
MaxLen = 10
MaxCalls = 2
SPECIFICATION Spec
INVARIANT OnlyRightLengths
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
