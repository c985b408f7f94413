SPECIFICATION Spec
CONSTANTS NN = 4 MM = 4 CC = {0, 4}
INVARIANTS Right NeverBelow Emit
CHECK_DEADLOCK FALSE
