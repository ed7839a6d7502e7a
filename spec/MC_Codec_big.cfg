SPECIFICATION Spec
CONSTANTS N = 4
INVARIANTS NeverWrong SuccessIsWhole FailureHasCause FinalHolds BadNeverRuns
PROPERTIES Settles
