CONSTANTS B = 3 L = 2 BUG = {} N = 4 SHARE = TRUE PANICS = 2 AFTER = 2
SPECIFICATION Spec
VIEW view
INVARIANTS Linear Genuine Whole
PROPERTY Apart
CHECK_DEADLOCK FALSE
