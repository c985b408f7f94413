SPECIFICATION Spec
CONSTANTS Bases = {1, 2, 3, 4} Depth = 1
VIEW View
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
