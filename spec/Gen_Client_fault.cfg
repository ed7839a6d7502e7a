SPECIFICATION Spec
CONSTANTS
 Mode = "fault"
 Big = FALSE
CHECK_DEADLOCK FALSE
