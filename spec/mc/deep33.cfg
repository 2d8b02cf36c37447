CONSTANTS B = 3 L = 3 BUG = {} STEPS = 220 LIMIT = 114
CALLS = {"insr","get","range","empty","rebuild"}
STARTS = {27,28,30,54,82}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
