CONSTANTS N = 7 BUG = {}
SPECIFICATION Spec
PROPERTY Refines
CHECK_DEADLOCK FALSE
