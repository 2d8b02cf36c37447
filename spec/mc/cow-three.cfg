CONSTANTS THREADS = {1,2,3} HANDLES = {1,2,3} CELLS = {1,2,3,4,5} VALUES = {0,1} BUG = {}
SPECIFICATION Spec
VIEW view
INVARIANTS NoMisuse Counts NoLeak Isolated
PROPERTY Refines
CHECK_DEADLOCK FALSE
