CONSTANTS B = 3 L = 2 BUG = {} N = 130 VERS = 1
OPS = {"ins","insr","rem","pop"}
STARTS = {1,5,6,7,17,18,19,20,24,36,37,54,55,56,60,61} DEPTH = 1 MAXSIZE = 200
SPECIFICATION Spec
VIEW view
INVARIANTS ShapeOK NoPanic LookupOK InOrder RangesOK HintOK
PROPERTY Refines
CHECK_DEADLOCK FALSE
