CONSTANTS B = 5 L = 4 BUG = {} STEPS = 160 LIMIT = 60
CALLS = {"pops","empty","insr"}
STARTS = {0,1,2,4,5,9,20,21,40}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
