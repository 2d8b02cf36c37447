CONSTANTS THREADS = {1} HANDLES = {1,2,3,4,5} STEPS = 60
SIZES = {0,1,3,4,5,9,17,40,90,300}
WRITES = {"ins","new","insr","rem","gone","low","high","getm","idxm","evac","erem","ewrite","emut","scanm","ranm","omut","ext","insn","remn","popn"}
JOINS = {"mergel","merger","plus","appl","appr","pluseq"}
READS = {"get","linear","scan","back","range","len","cmp"}
ENDS = {"drop","osum","own"}
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
