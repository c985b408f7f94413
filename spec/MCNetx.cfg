SPECIFICATION Spec
CONSTANTS Bases = {1, 2} Depth = 2
VIEW View
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
