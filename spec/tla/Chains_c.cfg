CONSTANTS Leaves = 2
Dims = {0, 1, 3}
MaxOps = 3
SPECIFICATION Spec
VIEW view
INVARIANTS WellFormed ShapeCounts NoLeafTwice RightLength
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
