SPECIFICATION Spec
CONSTANTS VerbSet = {"POST","GET"}
 LimSet = {1}
INVARIANTS OnlyValidHeads OnlyValidMessages AcceptedIffNoReason MissIs404 Answerable
CHECK_DEADLOCK FALSE
