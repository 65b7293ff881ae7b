SPECIFICATION Spec
CONSTANTS
  Most = 3
  MostOut = 3
  Variant = "keep"
INVARIANTS Alone Awake Sum
CHECK_DEADLOCK FALSE
