SPECIFICATION Spec
CONSTANTS CS = 6 H = 2 ROOM = 2 MINFREE = 1 MaxFrames = 4 MaxLen = 7
INVARIANTS Faithful InTime NotEarly Kept CanFeed
CHECK_DEADLOCK FALSE
