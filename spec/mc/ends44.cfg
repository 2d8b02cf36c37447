CONSTANTS B = 4 L = 4 BUG = {} STEPS = 160 LIMIT = 60
CALLS = {"pops","empty","insr"}
STARTS = {0,1,2,4,5,9,16,17,32}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
