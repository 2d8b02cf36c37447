CONSTANTS B = 7 L = 6 BUG = {} STEPS = 220 LIMIT = 648
CALLS = {"insr","get","range","empty","rebuild"}
STARTS = {294,295,300,588}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
