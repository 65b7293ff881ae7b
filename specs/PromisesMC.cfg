CONSTANTS N = 2
 VARIANT = ""
SPECIFICATION Spec
CONSTRAINT Bound
INVARIANTS Once Right Truth OkIsHeard Settled
PROPERTY NoLie
CHECK_DEADLOCK FALSE
