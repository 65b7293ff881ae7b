SPECIFICATION Spec
CONSTANTS Mode = "paths"  NM = 3
INVARIANT Forms NeverBad Truthful WireTruth
CHECK_DEADLOCK FALSE
