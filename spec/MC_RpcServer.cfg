SPECIFICATION Spec
CONSTANTS
 Protos = {"grpc"}
 Kinds = {"unary", "client", "server", "bidi"}
 MaxYield = 1
 FrameSeqs <- FSq
 Tails = {0, 3}
 CfgsSpec <- Cfgs
INVARIANTS DeliveredAreGood EofIsComplete SingleRequest SuccessMeansFinished SuccessIffFinished AllSent WellFormedEnd CleanedUp NeverOnUnsupported SingleResponse NoTruncatedSuccess NeverStuck
PROPERTIES NothingAfterTerminal HeadOnce
CHECK_DEADLOCK FALSE
