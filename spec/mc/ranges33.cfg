CONSTANTS B = 3 L = 3 BUG = {} STEPS = 150 LIMIT = 90
CALLS = {"range"}
STARTS = {1,3,4,9,10,12,13,19,27,28,30}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
