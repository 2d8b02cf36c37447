CONSTANTS K = 12 MAXLEN = 13 LOADS = 600
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
