CONSTANTS NS = 4
NC = 2
MaxHist = 60
MaxCtx = 6
Consts = {2, 3}
Bin = {"sub", "div"}
Un = {"sin"}
Fn2 = {"max"}
Script <- NoScript
Acts = {"left", "right", "un", "dep", "default", "value", "copy", "move", "via", "swap", "destroy", "knew", "krenew", "kdestroy", "kmove", "indep", "bin"}
SPECIFICATION Spec
INVARIANTS TypeOK OneOwner Backwards Separate
PROPERTIES Others Dead
ACTION_CONSTRAINT EmitSome
CHECK_DEADLOCK FALSE
