SPECIFICATION Spec
CONSTANTS MaxM = 2
 MaxS = 2
 MethodNames = {"close", "Close", "Close_", "as", "As", "as_", "GetFoo", "get_foo", "getFoo_", "__a", "_a", "A", "a", "aB", "HTTPGet", "V1Get", "pb___a"}
 ServiceNames = {"S", "SSync", "SClient", "SSyncClient", "S_", "property", "property_", "as", "as_"}
INVARIANTS RightAccepted SlipsRejected OmissionRejected NamesApart KnownKept SnakeStable RouteRight
CHECK_DEADLOCK FALSE
