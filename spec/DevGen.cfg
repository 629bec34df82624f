CONSTANT Universe <- UniverseOf
SPECIFICATION GenSpec
INVARIANTS Printed AllTold AlwaysUpToDate
CHECK_DEADLOCK FALSE
