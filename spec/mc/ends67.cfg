CONSTANTS B = 6 L = 7 BUG = {} STEPS = 160 LIMIT = 60
CALLS = {"pops","empty","insr"}
STARTS = {0,1,2,7,8,15,42,43,84}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
