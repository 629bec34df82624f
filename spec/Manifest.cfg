SPECIFICATION Spec
INVARIANT Printed
INVARIANT OneSite
INVARIANT ErrorLinesExist
INVARIANT BadIsBad
CHECK_DEADLOCK FALSE
