SPECIFICATION Spec
INVARIANTS Printed Tree Complete
PROPERTIES Untouched FailuresTouchNothing
CHECK_DEADLOCK FALSE
