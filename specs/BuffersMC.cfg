SPECIFICATION Spec
CONSTANTS CS = 3
MAX = 3
INITIAL = 2
MINFREE = 1
MaxStamps = 5
MaxLeases = 2
BUG = "none"
INVARIANTS Unchanged Apart Known Honest Sane
CHECK_DEADLOCK FALSE
