SPECIFICATION Spec
CONSTANTS Some = TRUE
CHECK_DEADLOCK FALSE
