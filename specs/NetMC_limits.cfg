SPECIFICATION MSpec
CONSTANTS
 IPs <- I2
 Lst <- Y2
 Retries = 1
 SoftL = 1
 HardL = 2
 Kinds = {"snd", "dial", "start", "bye", "tick", "fin"}
 Ranges <- R0
 MaxC = 3
 MaxN = 1
 MaxD = 0
 MaxR = 0
CONSTRAINT Small
INVARIANTS InOrder Whole OneUp Honest Distinct Bounded Tended Kept Limits
CHECK_DEADLOCK FALSE
