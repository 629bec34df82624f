SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS LeftToRight OnePlugin ForeignUntouched Printed
PROPERTY AllOrNothing
