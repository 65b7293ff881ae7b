SPECIFICATION Spec
CONSTANTS Mode = "msgs"  NM = 2
INVARIANT Forms NeverBad Truthful WireTruth
CHECK_DEADLOCK FALSE
