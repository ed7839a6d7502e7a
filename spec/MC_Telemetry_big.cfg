SPECIFICATION Spec
CONSTANTS NCalls = 2
 Outs = {"ok", "err"}
INVARIANTS AtMostOne ExactlyOne Child OwnParent OneTree SameCodes CanFinish
CHECK_DEADLOCK FALSE
