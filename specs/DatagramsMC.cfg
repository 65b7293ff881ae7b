SPECIFICATION Spec
CONSTANTS
  Most = 3
  MostOut = 3
  Variant = "real"
INVARIANTS Alone Awake Sum
CHECK_DEADLOCK FALSE
