CONSTANTS MaxCtx = 60
Handles = 24
Vars = 3
MaxOps = 120
MaxLen = 60
SPECIFICATION Spec
INVARIANTS VarsMeanIt Closed
CONSTRAINT Small
ACTION_CONSTRAINT EmitSome
CHECK_DEADLOCK FALSE
