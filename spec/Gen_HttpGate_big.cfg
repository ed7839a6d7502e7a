SPECIFICATION Spec
CONSTANTS Max = 3
CHECK_DEADLOCK FALSE
