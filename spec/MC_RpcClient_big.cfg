SPECIFICATION Spec
CONSTANTS
 Protos = {"connect", "grpc", "grpcweb"}
 Kinds = {"unary", "client", "server", "bidi"}
 Rich = TRUE
 Chunks = {1, 5}
 Tails = {0, 2, 6}
INVARIANTS PrefixOnly SuccessHasTerminal SuccessNeedsAcceptableHead ValueNeedsExactlyOne OversizedNeverShown PlainOversizedNeverShown ReleasedAtEnd NeverStuck AlwaysAnswerable
PROPERTIES OutcomeOnce FoundErrorKept
CHECK_DEADLOCK FALSE
