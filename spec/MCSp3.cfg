SPECIFICATION Spec
CONSTANTS NN = 3 MM = 3 CC = {0, 1, 4}
INVARIANTS Right NeverBelow Emit
CHECK_DEADLOCK FALSE
