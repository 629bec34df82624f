SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS FirstParser ErrorsFail Verbatim AllPublished
PROPERTY Ends
