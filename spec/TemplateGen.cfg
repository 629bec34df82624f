SPECIFICATION GenSpec
CONSTANT Project <- ProjectOf
INVARIANTS AcceptedIsBalanced UnbalancedIsRefused Means FramesOk Printed
