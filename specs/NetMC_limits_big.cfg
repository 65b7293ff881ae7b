SPECIFICATION MSpec
CONSTANTS
 IPs <- I3
 Lst <- Y3
 Retries = 1
 SoftL = 1
 HardL = 2
 Kinds = {"dial", "start", "bye", "tick", "fin"}
 Ranges <- R0
 MaxC = 3
 MaxN = 0
 MaxD = 0
 MaxR = 0
CONSTRAINT Small
INVARIANTS InOrder Whole OneUp Honest Distinct Bounded Tended Kept Limits
CHECK_DEADLOCK FALSE
