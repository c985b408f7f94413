SPECIFICATION Spec
CONSTANTS Depth = 5
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
