CONSTANTS B = 2 L = 2 BUG = {"lowerone"} N = 7 VERS = 1
OPS = {"ins","rem"}
STARTS = {0} DEPTH = 0 MAXSIZE = 9
SPECIFICATION Spec
VIEW view
INVARIANTS NoPanic LookupOK InOrder RangesOK HintOK
PROPERTY Refines
CHECK_DEADLOCK FALSE
