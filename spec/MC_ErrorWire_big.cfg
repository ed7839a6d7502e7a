SPECIFICATION Spec
CONSTANTS ML = 4
 DL = 5
INVARIANTS RoundTrip Readable Printable
CHECK_DEADLOCK FALSE
