SPECIFICATION Spec
CONSTANTS Mode = "points"
 Big = TRUE
CHECK_DEADLOCK FALSE
