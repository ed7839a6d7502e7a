SPECIFICATION Spec
CONSTANTS KindSet = {"unary", "client", "server", "bidi"}
 Chains = "big"
 MaxItems = 1
 Cuts = FALSE
INVARIANTS PairedMeta Nested InnerFirst CallerSees ClosedBeforeSeen CutTold HandlerOnlyIfCalled CanFinish
CHECK_DEADLOCK FALSE
