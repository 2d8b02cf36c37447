CONSTANTS B = 7 L = 6 BUG = {} STEPS = 150 LIMIT = 90
CALLS = {"range"}
STARTS = {1,6,7,42,43,48,49,85}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
