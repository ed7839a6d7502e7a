SPECIFICATION Spec
CONSTANTS KindSet = {"unary", "bidi"}
 Chains = "small"
 MaxItems = 1
 Cuts = TRUE
INVARIANTS PairedMeta Nested InnerFirst CallerSees ClosedBeforeSeen CutTold HandlerOnlyIfCalled CanFinish
CHECK_DEADLOCK FALSE
