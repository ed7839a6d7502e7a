SPECIFICATION Spec
CONSTANTS
 Mode = "class"
 Big = FALSE
CHECK_DEADLOCK FALSE
