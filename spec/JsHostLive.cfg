SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OnlyJson RoundTrip
PROPERTIES Isolated Kept Innermost Ends
