CONSTANTS B = 5 L = 5 BUG = {} STEPS = 150 LIMIT = 90
CALLS = {"range"}
STARTS = {1,5,6,25,26,30,31,51}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
