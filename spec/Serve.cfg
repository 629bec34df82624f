SPECIFICATION Spec
INVARIANTS Inside Once Kept AllServed Printed
CHECK_DEADLOCK FALSE
