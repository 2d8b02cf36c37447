CONSTANTS B = 3 L = 3 BUG = {} STEPS = 160 LIMIT = 60
CALLS = {"pops","empty","insr"}
STARTS = {0,1,2,3,4,7,9,10,18}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
