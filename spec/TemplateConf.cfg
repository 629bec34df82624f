SPECIFICATION ConfSpec
CONSTANT Project <- CaseOf
INVARIANT Conforms
