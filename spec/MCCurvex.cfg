SPECIFICATION Spec
CONSTANTS H = 5 A = 2 FF = 1
INVARIANTS Counts Experienced ExperiencedUp Valid Fifo ReachedAt Floor2 Emit
CHECK_DEADLOCK FALSE
