SPECIFICATION Spec
CONSTANTS Mode = "values"  NM = 3
INVARIANT Forms NeverBad Truthful WireTruth
CHECK_DEADLOCK FALSE
