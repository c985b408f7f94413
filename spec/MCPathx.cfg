SPECIFICATION Spec
CONSTANTS Costs = {0, 1, 2, 5} Rounds = 4 WN = 4 WL = 6
INVARIANTS Valid Distinct CutRight
PROPERTIES Judged Keeps
CHECK_DEADLOCK FALSE
