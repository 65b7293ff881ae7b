SPECIFICATION MSpec
CONSTANTS
 IPs <- I1
 Lst <- Y1
 Retries = 1
 SoftL = 9
 HardL = 9
 Kinds = {"snd", "dial", "hello", "start", "ack", "bye", "tick", "disc", "fin", "rst", "stall"}
 Ranges <- R0
 MaxC = 2
 MaxN = 3
 MaxD = 0
 MaxR = 0
CONSTRAINT Small
INVARIANTS InOrder Whole OneUp Honest Distinct Bounded Tended Kept Limits
CHECK_DEADLOCK FALSE
