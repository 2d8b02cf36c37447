CONSTANTS B = 4 L = 4 BUG = {} STEPS = 220 LIMIT = 188
CALLS = {"insr","get","range","empty","rebuild"}
STARTS = {64,65,68,128,257}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
