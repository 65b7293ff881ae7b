SPECIFICATION MSpec
CONSTANTS
 IPs <- I1
 Lst <- Y1
 Retries = 1
 SoftL = 9
 HardL = 9
 Kinds = {"snd", "dial", "conn", "hello", "start", "ack", "bye", "data", "tick", "disc", "fin", "listen"}
 Ranges <- R0
 MaxC = 2
 MaxN = 2
 MaxD = 1
 MaxR = 0
CONSTRAINT Small
INVARIANTS InOrder Whole OneUp Honest Distinct Bounded Tended Kept Limits
CHECK_DEADLOCK FALSE
