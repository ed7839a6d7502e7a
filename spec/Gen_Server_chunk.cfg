SPECIFICATION Spec
CONSTANTS Mode = "chunk"
 Big = FALSE
CHECK_DEADLOCK FALSE
