CONSTANTS B = 6 L = 7 BUG = {} STEPS = 150 LIMIT = 90
CALLS = {"range"}
STARTS = {1,7,8,42,43,49,50,85}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
