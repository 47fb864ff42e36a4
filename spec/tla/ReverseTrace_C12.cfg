SPECIFICATION Spec
INVARIANTS WithinMemory WithinBudget NotOverBudget
CHECK_DEADLOCK FALSE
