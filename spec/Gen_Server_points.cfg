SPECIFICATION Spec
CONSTANTS Mode = "points"
 Big = FALSE
CHECK_DEADLOCK FALSE
