CONSTANTS B = 4 L = 4 BUG = {} STEPS = 150 LIMIT = 90
CALLS = {"range"}
STARTS = {1,4,5,16,17,20,21,33,64,65,68}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
