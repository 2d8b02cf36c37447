CONSTANTS N = 3 BUG = {"keepboth"}
SPECIFICATION Spec
PROPERTY Refines
CHECK_DEADLOCK FALSE
