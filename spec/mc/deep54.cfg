CONSTANTS B = 5 L = 4 BUG = {} STEPS = 220 LIMIT = 260
CALLS = {"insr","get","range","empty","rebuild"}
STARTS = {100,101,104,200}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
