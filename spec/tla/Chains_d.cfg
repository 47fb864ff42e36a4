CONSTANTS Leaves = 2
Dims = {1, 16, 33}
MaxOps = 3
SPECIFICATION Spec
VIEW view
INVARIANTS WellFormed ShapeCounts NoLeafTwice RightLength
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
