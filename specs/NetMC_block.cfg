SPECIFICATION MSpec
CONSTANTS
 IPs <- I2
 Lst <- Y2
 Retries = 1
 SoftL = 9
 HardL = 9
 Kinds = {"snd", "dial", "conn", "hello", "start", "ack", "bsys", "asys", "bnet", "anet"}
 Ranges <- R1
 MaxC = 2
 MaxN = 1
 MaxD = 0
 MaxR = 1
CONSTRAINT Small
INVARIANTS InOrder Whole OneUp Honest Distinct Bounded Tended Kept Limits
CHECK_DEADLOCK FALSE
