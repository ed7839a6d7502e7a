SPECIFICATION Spec
CONSTANTS Some = FALSE
CHECK_DEADLOCK FALSE
