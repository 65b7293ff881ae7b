SPECIFICATION Spec
CONSTANTS
  Senders = {1, 2}
  Execs = {101, 102}
  K = 2
  Thr = 1
  Blocking <- Block1
  Variant = "noresume"
INVARIANTS Mutex NonNegative NoLostWakeup IdleIsIdle SenderOrder

CHECK_DEADLOCK FALSE
