INIT Init
NEXT Next
CONSTANT Configs <- Model
CONSTANT Emit = FALSE
CONSTANT Buffer = "own"
INVARIANT Independent
INVARIANT OnceEach
INVARIANT Terminates
INVARIANT Say
CHECK_DEADLOCK FALSE
