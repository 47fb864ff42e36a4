CONSTANTS NS = 3
NC = 2
MaxHist = 8
MaxCtx = 3
Consts = {2}
Bin = {"sub"}
Un = {"exp"}
Fn2 = {"max"}
Script <- Mixed
Acts = {"knew", "indep", "kdestroy", "value", "bin", "left", "right", "un", "copy", "move", "swap", "via", "dep", "destroy", "default", "kmove", "krenew"}
SPECIFICATION Spec
VIEW view
INVARIANTS TypeOK OneOwner Backwards Separate
PROPERTIES Others Dead
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
