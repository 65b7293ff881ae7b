SPECIFICATION Spec
CONSTANTS
  Most = 4
  MostOut = 3
  Variant = "real"
INVARIANTS Alone Awake Sum
CHECK_DEADLOCK FALSE
