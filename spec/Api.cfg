SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Printed OnlyBuilt
