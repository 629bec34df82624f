SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OnlyJson RoundTrip Printed
PROPERTIES Isolated Kept Innermost
