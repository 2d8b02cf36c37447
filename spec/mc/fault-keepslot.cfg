CONSTANTS B = 2 L = 2 BUG = {"keepslot"} N = 5 SHARE = FALSE PANICS = 1 AFTER = 1
SPECIFICATION Spec
VIEW view
INVARIANTS Linear Genuine Whole
PROPERTY Apart
CHECK_DEADLOCK FALSE
