SPECIFICATION Spec
CONSTANTS NP = 3 NC = 1 R = 2 Lams = {1000, 300}
INVARIANTS Nonneg Conserve
PROPERTIES Moved NoneDearer Rest Fixed Better
CHECK_DEADLOCK FALSE
