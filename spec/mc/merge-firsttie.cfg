CONSTANTS N = 3 BUG = {"firsttie"}
SPECIFICATION Spec
PROPERTY Refines
CHECK_DEADLOCK FALSE
