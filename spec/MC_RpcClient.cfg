SPECIFICATION Spec
CONSTANTS
 Protos = {"connect", "grpc", "grpcweb"}
 Kinds = {"unary", "bidi"}
 Rich = FALSE
 Chunks = {5}
 Tails = {0, 2}
INVARIANTS PrefixOnly SuccessHasTerminal SuccessNeedsAcceptableHead ValueNeedsExactlyOne OversizedNeverShown PlainOversizedNeverShown ReleasedAtEnd NeverStuck AlwaysAnswerable
PROPERTIES OutcomeOnce FoundErrorKept
CHECK_DEADLOCK FALSE
