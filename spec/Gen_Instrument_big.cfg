SPECIFICATION Spec
CONSTANTS N = 6
CHECK_DEADLOCK FALSE
