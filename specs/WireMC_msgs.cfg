SPECIFICATION Spec
CONSTANTS Mode = "msgs"  NM = 3
INVARIANT Forms NeverBad Truthful WireTruth
CHECK_DEADLOCK FALSE
