SPECIFICATION Spec
CONSTANTS
 Mode = "fault"
 Big = TRUE
CHECK_DEADLOCK FALSE
