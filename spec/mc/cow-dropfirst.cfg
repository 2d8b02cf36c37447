CONSTANTS THREADS = {1,2} HANDLES = {1,2,3} CELLS = {1,2,3,4} VALUES = {0,1} BUG = {"dropfirst"}
SPECIFICATION Spec
VIEW view
INVARIANTS NoMisuse Counts NoLeak Isolated
PROPERTY Refines
CHECK_DEADLOCK FALSE
