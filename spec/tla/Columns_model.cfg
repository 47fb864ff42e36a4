INIT Init
NEXT Next
CONSTANT Configs <- Model
CONSTANT Emit = FALSE
CONSTANT Assembly = "index"
CONSTANT Buffer = "own"
INVARIANT Independent
INVARIANT OnceEach
INVARIANT Say
INVARIANT Terminates
CHECK_DEADLOCK FALSE
