SPECIFICATION MSpec
INVARIANTS Agree Tidy Right
CONSTANTS
 Comps = {1, 2}
 Pols = {"rr", "hash"}
 Deep = FALSE
 Kills = FALSE
