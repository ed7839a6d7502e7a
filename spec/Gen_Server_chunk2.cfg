SPECIFICATION Spec
CONSTANTS Mode = "chunk2"
 Big = FALSE
CHECK_DEADLOCK FALSE
