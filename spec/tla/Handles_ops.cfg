CONSTANTS NS = 3
NC = 2
MaxHist = 7
MaxCtx = 2
Consts = {1, 2, 3, 4, 5, 6, 7}
Bin = {"add", "sub", "mul", "div"}
Un = {"sin", "cos", "tan", "abs", "exp", "ln"}
Fn2 = {"min", "max"}
Script <- Mixed
Acts = {"knew", "indep", "kdestroy", "value", "bin", "left", "right", "un", "plain", "copy", "move", "swap", "via", "dep", "destroy", "default", "kmove", "krenew"}
SPECIFICATION Spec
VIEW view
INVARIANTS TypeOK OneOwner Backwards Separate
PROPERTIES Others Dead
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
