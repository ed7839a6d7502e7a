SPECIFICATION Spec
CONSTANTS
 Mode = "single"
 Big = FALSE
CHECK_DEADLOCK FALSE
