SPECIFICATION Spec
CONSTANTS Mode = "chunk2"
 Big = TRUE
CHECK_DEADLOCK FALSE
