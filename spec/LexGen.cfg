SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Wide <- WideChars Plugins <- PluginTable
INVARIANTS Printed LinesExist NoTagNoChange EscapeLaw
