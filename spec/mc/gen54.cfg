CONSTANTS B = 5 L = 4 BUG = {} STEPS = 150 LIMIT = 90
CALLS = {"insr","get","range","empty","rebuild"}
STARTS = {0,1,4,5,20,21,24,25,41,100,101,104}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
