SPECIFICATION Spec
CONSTANTS ML = 3
 DL = 3
INVARIANTS RoundTrip Readable Printable
CHECK_DEADLOCK FALSE
