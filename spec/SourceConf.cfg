SPECIFICATION ConfSpec
CONSTANTS Project <- CaseOf Wide <- WideChars Plugins <- PluginTable
INVARIANT Conforms
