CONSTANTS N = 5 BUG = {}
SPECIFICATION Spec
PROPERTY Refines
CHECK_DEADLOCK FALSE
