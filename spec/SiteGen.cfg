SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
CONSTANT Universe <- UniverseOf
INVARIANTS FailedKeeps FreshImage OthersKept OneSource Nested MetaOnlyIfEnabled MetaComplete MetaInOrder RunsInOrder CleanOnly NoSense Printed
PROPERTIES SourcesKept
