INIT Init
NEXT Next
CONSTANT Configs <- Bad
CONSTANT Emit = FALSE
CONSTANT Assembly = "index"
CONSTANT Buffer = "shared"
INVARIANT Independent
INVARIANT OnceEach
INVARIANT Say
INVARIANT Terminates
CHECK_DEADLOCK FALSE
