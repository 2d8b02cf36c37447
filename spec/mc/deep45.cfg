CONSTANTS B = 4 L = 5 BUG = {} STEPS = 220 LIMIT = 220
CALLS = {"insr","get","range","empty","rebuild"}
STARTS = {80,81,85,160,321}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
