CONSTANTS MaxCtx = 2
Handles = 2
Vars = 2
MaxOps = 6
MaxLen = 6
SPECIFICATION Spec
VIEW view
INVARIANTS VarsMeanIt Closed
PROPERTIES GoneIsFrozen OneAtATime RefusedIsNothing
CONSTRAINT Small
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
