SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS BuiltInsFirst FirstWins NoneLeftOut FullNames
PROPERTY Decided
