SPECIFICATION Spec
CONSTANTS Depth = 9
 MaxObjs = 2
INVARIANTS Refines OneLayer OffIsOff RightAccepted WrongRejected
CHECK_DEADLOCK FALSE
