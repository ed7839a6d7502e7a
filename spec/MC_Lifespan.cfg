SPECIFICATION Spec
CONSTANTS MaxReq = 3
INVARIANTS ServiceWhileServed CompleteMeansReady ClosedAfterShutdown EndsAnswered OneExit PlainNeverRefused RefusedBeforeStart CanAnswer
CHECK_DEADLOCK FALSE
