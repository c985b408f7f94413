SPECIFICATION Spec
CONSTANTS T = 3 NV = 2
INVARIANT Accepted
INVARIANT Followed
INVARIANT Chosen
INVARIANT Told
CHECK_DEADLOCK FALSE
