INIT Init
NEXT Next
CONSTANT Configs <- Deep
CONSTANT Emit = TRUE
CONSTANT Buffer = "own"
INVARIANT Independent
INVARIANT OnceEach
INVARIANT Terminates
INVARIANT Say
CHECK_DEADLOCK FALSE
