SPECIFICATION Spec
CONSTANTS Mode = "script"
 Big = FALSE
CHECK_DEADLOCK FALSE
