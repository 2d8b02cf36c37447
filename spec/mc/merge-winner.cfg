CONSTANTS N = 3 BUG = {"winner"}
SPECIFICATION Spec
PROPERTY Refines
CHECK_DEADLOCK FALSE
