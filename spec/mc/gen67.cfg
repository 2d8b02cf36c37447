CONSTANTS B = 6 L = 7 BUG = {} STEPS = 150 LIMIT = 140
CALLS = {"insr","get","range","empty","rebuild"}
STARTS = {0,1,7,8,42,43,49,50,85}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
