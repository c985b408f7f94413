SPECIFICATION Spec
CONSTANTS NP = 2 NC = 2 R = 2 Lams = {1000, 300}
INVARIANTS Nonneg Conserve
PROPERTIES Moved NoneDearer Rest Fixed Better
CHECK_DEADLOCK FALSE
