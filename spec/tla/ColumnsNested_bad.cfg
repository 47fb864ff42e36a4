INIT Init
NEXT Next
CONSTANT Configs <- Bad
CONSTANT Emit = FALSE
CONSTANT Buffer = "worker"
INVARIANT Independent
INVARIANT OnceEach
INVARIANT Terminates
INVARIANT Say
CHECK_DEADLOCK FALSE
