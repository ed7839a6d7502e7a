SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS NeverWrong SuccessIsWhole FailureHasCause FinalHolds BadNeverRuns
PROPERTIES Settles
