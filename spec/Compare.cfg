SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NegationLaw Trichotomy Inclusive Symmetry Reflexive Unordered Typed Transitive Printed
