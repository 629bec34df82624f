SPECIFICATION ConfSpec
CONSTANTS Project <- CaseOf Wide <- WideChars Plugins <- PluginTable
CONSTRAINT OnlyBodies
CHECK_DEADLOCK FALSE
INVARIANT Bodies
