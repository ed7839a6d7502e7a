SPECIFICATION Spec
CONSTANTS Depth = 7
 MaxObjs = 1
INVARIANTS Refines OneLayer OffIsOff RightAccepted WrongRejected
CHECK_DEADLOCK FALSE
