INIT Init
NEXT Next
CONSTANT Configs <- Bad
CONSTANT Emit = FALSE
CONSTANT Assembly = "position"
CONSTANT Buffer = "own"
INVARIANT Independent
INVARIANT OnceEach
INVARIANT Say
INVARIANT Terminates
CHECK_DEADLOCK FALSE
