SPECIFICATION Spec
CONSTANTS KindSet = {"unary", "client", "server", "bidi"}
 Chains = "cut"
 MaxItems = 1
 Cuts = TRUE
INVARIANTS PairedMeta Nested InnerFirst CallerSees ClosedBeforeSeen CutTold HandlerOnlyIfCalled CanFinish
CHECK_DEADLOCK FALSE
