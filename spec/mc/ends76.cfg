CONSTANTS B = 7 L = 6 BUG = {} STEPS = 160 LIMIT = 60
CALLS = {"pops","empty","insr"}
STARTS = {0,1,2,6,7,13,42,43,84}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
