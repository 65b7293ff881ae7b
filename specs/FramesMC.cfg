SPECIFICATION Spec
CONSTANTS CS = 5 H = 2 ROOM = 1 MINFREE = 1 MaxFrames = 3 MaxLen = 6
INVARIANTS Faithful InTime NotEarly Kept CanFeed
CHECK_DEADLOCK FALSE
