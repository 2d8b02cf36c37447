CONSTANTS B = 5 L = 5 BUG = {} STEPS = 220 LIMIT = 310
CALLS = {"insr","get","range","empty","rebuild"}
STARTS = {125,126,130,250}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
