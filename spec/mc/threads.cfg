CONSTANTS THREADS = {1,2,3} HANDLES = {1,2,3,4,5,6} STEPS = 60
SIZES = {0,1,3,4,5,9,17,40,90,300}
WRITES = {"ins","new","insr","rem","gone","low","high","getm","idxm","scanm","ranm","ext","insn","remn","popn"}
JOINS = {"mergel","merger","plus","appl","appr","pluseq"}
READS = {"get","linear","scan","back","range","len","cmp"}
ENDS = {"drop","osum"}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
