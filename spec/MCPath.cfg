SPECIFICATION Spec
CONSTANTS Costs = {1, 2, 3} Rounds = 3 WN = 4 WL = 4
INVARIANTS Valid Distinct CutRight
PROPERTIES Judged Keeps
CHECK_DEADLOCK FALSE
