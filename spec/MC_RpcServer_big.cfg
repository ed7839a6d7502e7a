SPECIFICATION Spec
CONSTANTS
 Protos = {"connect", "grpc"}
 Kinds = {"unary", "client", "server", "bidi"}
 MaxYield = 2
 FrameSeqs <- FS2
 Tails = {0, 3}
 CfgsSpec <- Cfgs
INVARIANTS DeliveredAreGood EofIsComplete SingleRequest SuccessMeansFinished SuccessIffFinished AllSent WellFormedEnd CleanedUp NeverOnUnsupported SingleResponse NoTruncatedSuccess NeverStuck
PROPERTIES NothingAfterTerminal HeadOnce
CHECK_DEADLOCK FALSE
