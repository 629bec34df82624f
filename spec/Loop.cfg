SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Permutation SortedBy Unsorted Descending Window Printed
