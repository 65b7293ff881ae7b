SPECIFICATION Spec
CONSTANTS
  Senders = {1, 2}
  Execs = {101, 102}
  K = 2
  Thr = 1
  Blocking <- NoBlock
  Variant = "real"
INVARIANTS Mutex NonNegative NoLostWakeup IdleIsIdle SenderOrder
PROPERTY AllHandled
CHECK_DEADLOCK FALSE
