SPECIFICATION FairSpec
CONSTANT Project <- ProjectOf
PROPERTY Terminates
