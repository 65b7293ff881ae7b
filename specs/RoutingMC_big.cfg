SPECIFICATION MSpec
INVARIANTS Agree Tidy Right
CONSTANTS
 Comps = {1, 2}
 Pols = {"rr", "bc"}
 Deep = TRUE
 Kills = TRUE
