CONSTANTS MaxCtx = 3
Handles = 3
Vars = 3
MaxOps = 5
MaxLen = 6
SPECIFICATION Spec
VIEW view
INVARIANTS VarsMeanIt Closed
PROPERTIES GoneIsFrozen OneAtATime RefusedIsNothing
CONSTRAINT Small
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
