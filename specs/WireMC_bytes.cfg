SPECIFICATION Spec
CONSTANTS Mode = "bytes"  NM = 3
INVARIANT Forms NeverBad Truthful WireTruth
CHECK_DEADLOCK FALSE
