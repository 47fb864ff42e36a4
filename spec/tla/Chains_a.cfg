CONSTANTS Leaves = 3
Dims = {1, 2}
MaxOps = 4
SPECIFICATION Spec
VIEW view
INVARIANTS WellFormed ShapeCounts NoLeafTwice RightLength
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
