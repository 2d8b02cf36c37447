CONSTANTS B = 4 L = 5 BUG = {} STEPS = 150 LIMIT = 90
CALLS = {"range"}
STARTS = {1,5,6,20,21,25,26,41,80,81,85}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
