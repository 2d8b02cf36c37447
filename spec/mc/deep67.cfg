CONSTANTS B = 6 L = 7 BUG = {} STEPS = 220 LIMIT = 564
CALLS = {"insr","get","range","empty","rebuild"}
STARTS = {252,253,259,504}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
