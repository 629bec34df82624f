CONSTANT Universe <- UniverseOf
SPECIFICATION FreeSpec
INVARIANTS AllTold
CHECK_DEADLOCK FALSE
