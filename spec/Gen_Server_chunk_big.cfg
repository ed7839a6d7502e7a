SPECIFICATION Spec
CONSTANTS Mode = "chunk"
 Big = TRUE
CHECK_DEADLOCK FALSE
