SPECIFICATION Spec
CONSTANTS NCalls = 1
 Outs = {"ok", "err"}
INVARIANTS AtMostOne ExactlyOne Child OwnParent OneTree SameCodes CanFinish
CHECK_DEADLOCK FALSE
