CONSTANTS N = 3 BUG = {"tie"}
SPECIFICATION Spec
PROPERTY Refines
CHECK_DEADLOCK FALSE
