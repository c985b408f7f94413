SPECIFICATION Spec
CONSTANTS T = 5 NV = 2
INVARIANT Accepted
INVARIANT Followed
INVARIANT Chosen
INVARIANT Told
CHECK_DEADLOCK FALSE
