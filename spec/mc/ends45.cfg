CONSTANTS B = 4 L = 5 BUG = {} STEPS = 160 LIMIT = 60
CALLS = {"pops","empty","insr"}
STARTS = {0,1,2,5,6,11,20,21,40}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
