INIT Init
NEXT Next
CONSTANT Configs <- Deeper
CONSTANT Emit = TRUE
CONSTANT Assembly = "index"
CONSTANT Buffer = "own"
INVARIANT Independent
INVARIANT OnceEach
INVARIANT Say

CHECK_DEADLOCK FALSE
