CONSTANTS Leaves = 4
Dims = {1}
MaxOps = 6
SPECIFICATION Spec
VIEW view
INVARIANTS WellFormed ShapeCounts NoLeafTwice RightLength
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
