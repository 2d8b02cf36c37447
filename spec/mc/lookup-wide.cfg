CONSTANTS B = 3 L = 2 BUG = {} N = 6 VERS = 2
OPS = {"ins","insref","getm","rem"}
STARTS = {0} DEPTH = 0 MAXSIZE = 8
SPECIFICATION Spec
VIEW view
INVARIANTS ShapeOK NoPanic LookupOK InOrder RangesOK HintOK
PROPERTY Refines
CHECK_DEADLOCK FALSE
