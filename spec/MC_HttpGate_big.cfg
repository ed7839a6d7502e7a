SPECIFICATION Spec
CONSTANTS VerbSet = {"POST","GET","PUT"}
 LimSet = {1, 2}
INVARIANTS OnlyValidHeads OnlyValidMessages AcceptedIffNoReason MissIs404 Answerable
CHECK_DEADLOCK FALSE
