CONSTANTS K = 8 MAXLEN = 9 LOADS = 90
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
