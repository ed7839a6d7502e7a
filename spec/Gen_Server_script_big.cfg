SPECIFICATION Spec
CONSTANTS Mode = "script"
 Big = TRUE
CHECK_DEADLOCK FALSE
