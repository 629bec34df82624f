SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Printed FormulasAgree WeekLaws OffsetLaw
