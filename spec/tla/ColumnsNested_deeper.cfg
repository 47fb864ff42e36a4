INIT Init
NEXT Next
CONSTANT Configs <- Deeper
CONSTANT Emit = TRUE
CONSTANT Buffer = "own"
INVARIANT Independent
INVARIANT OnceEach
INVARIANT Terminates
INVARIANT Say
CHECK_DEADLOCK FALSE
