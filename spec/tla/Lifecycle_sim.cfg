CONSTANTS MaxCtx = 30
Handles = 8
Vars = 6
MaxOps = 60
MaxLen = 60
SPECIFICATION Spec
INVARIANTS VarsMeanIt Closed
PROPERTIES GoneIsFrozen OneAtATime RefusedIsNothing
CONSTRAINT Small
ACTION_CONSTRAINT EmitSome
CHECK_DEADLOCK FALSE
