CONSTANTS B = 2 L = 2 BUG = {} N = 6 VERS = 1
OPS = {"ins","insr","rem","pop"}
STARTS = {0} DEPTH = 0 MAXSIZE = 8
SPECIFICATION Spec
VIEW view
INVARIANTS ShapeOK NoPanic LookupOK InOrder RangesOK HintOK
PROPERTY Refines
CHECK_DEADLOCK FALSE
