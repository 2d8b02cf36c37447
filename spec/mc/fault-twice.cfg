CONSTANTS B = 2 L = 2 BUG = {} N = 5 SHARE = FALSE PANICS = 2 AFTER = 2
SPECIFICATION Spec
VIEW view
INVARIANTS Linear Genuine Whole
PROPERTY Apart
CHECK_DEADLOCK FALSE
