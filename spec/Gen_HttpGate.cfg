SPECIFICATION Spec
CONSTANTS Max = 2
CHECK_DEADLOCK FALSE
