CONSTANT Universe <- UniverseOf
SPECIFICATION FreeSpec
INVARIANTS AllTold
PROPERTIES Converges Stops
CHECK_DEADLOCK FALSE
