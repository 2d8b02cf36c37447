CONSTANTS B = 2 L = 2 BUG = {} N = 40 VERS = 1
OPS = {"ins","insr","rem","pop"}
STARTS = {8,9,16,17,18} DEPTH = 2 MAXSIZE = 200
SPECIFICATION Spec
VIEW view
INVARIANTS ShapeOK NoPanic LookupOK InOrder RangesOK HintOK
PROPERTY Refines
CHECK_DEADLOCK FALSE
