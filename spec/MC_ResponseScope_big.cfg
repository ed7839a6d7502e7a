SPECIFICATION Spec
CONSTANTS W = 2
 S = 3
 C = 3
INVARIANTS OnlyItsCalls OneScopePerCall NothingOutside CompleteAtEnd StacksNest Owned Observable
CHECK_DEADLOCK FALSE
