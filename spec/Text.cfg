SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS ExcerptLaw Bound Printed
