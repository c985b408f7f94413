SPECIFICATION Spec
CONSTANTS NIds = {1, 2, 3} LIds = {1, 2, 3, 4}
VIEW View
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
