CONSTANTS NS = 2
NC = 1
MaxHist = 7
MaxCtx = 2
Consts = {1}
Bin = {"sub"}
Un = {}
Fn2 = {}
Script <- NoScript
Acts = {"default", "value", "copy", "move", "via", "swap", "destroy", "knew", "krenew", "kdestroy", "kmove", "indep", "bin"}
SPECIFICATION Spec
VIEW view
INVARIANTS TypeOK OneOwner Backwards Separate
PROPERTIES Others Dead
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
