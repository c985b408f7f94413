SPECIFICATION Spec
CONSTANTS NN = 3 MM = 4 CC = {0, 1, 4}
INVARIANTS Right NeverBelow Emit
CHECK_DEADLOCK FALSE
