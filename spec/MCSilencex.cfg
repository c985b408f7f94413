SPECIFICATION Spec
CONSTANTS Depth = 6
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
