SPECIFICATION Spec
CONSTANTS MaxReq = 5
INVARIANTS ServiceWhileServed CompleteMeansReady ClosedAfterShutdown EndsAnswered OneExit PlainNeverRefused RefusedBeforeStart CanAnswer
CHECK_DEADLOCK FALSE
