CONSTANTS MaxCtx = 3
Handles = 3
Vars = 1
MaxOps = 8
MaxLen = 4
SPECIFICATION Spec
VIEW view
INVARIANTS VarsMeanIt Closed
PROPERTIES GoneIsFrozen OneAtATime RefusedIsNothing
CONSTRAINT Small
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
