CONSTANTS Leaves = 12
Dims = {1}
MaxOps = 30
SPECIFICATION Spec
INVARIANTS WellFormed ShapeCounts NoLeafTwice RightLength
ACTION_CONSTRAINT EmitSome
CHECK_DEADLOCK FALSE
