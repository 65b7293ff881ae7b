SPECIFICATION Spec
CONSTANTS
  Senders = {1, 2}
  Execs = {101, 102}
  K = 2
  Thr = 2
  Blocking <- Block1
  Variant = "real"
INVARIANTS Mutex NonNegative NoLostWakeup IdleIsIdle SenderOrder
PROPERTY AllHandled
CHECK_DEADLOCK FALSE
