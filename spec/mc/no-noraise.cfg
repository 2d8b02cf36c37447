CONSTANTS B = 3 L = 2 BUG = {"noraise"} N = 8 VERS = 1
OPS = {"ins","rem"}
STARTS = {0} DEPTH = 0 MAXSIZE = 10
SPECIFICATION Spec
VIEW view
INVARIANTS NoPanic LookupOK InOrder RangesOK HintOK
PROPERTY Refines
CHECK_DEADLOCK FALSE
