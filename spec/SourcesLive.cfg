SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS LeftToRight OnePlugin ForeignUntouched
PROPERTIES AllOrNothing Ends
