SPECIFICATION MCSpec
CONSTANTS
  Comps = {1, 2}
  MaxCmd = 3
  MaxMsg = 3
  MaxEv = 0
  MaxFut = 0
  MaxTmo = 0
  MaxAdv = 0
  MaxAsk = 0
  MaxNote = 0
  Cmds = {"start", "stop"}
  Results = {"benign"}
  FutResults = {}
  Det = FALSE
  Thr = 2
  MM = 1
  Edges <- NoEdges
  Recov = {}
  UserOps = TRUE
INVARIANTS Once NoneLost DeadIsDead Exclusive FutDone RecoveredOnce RecoveredAll ToldTruth ToldAll RightWay EvLost Batch TmoRight TmoLost AskSettled Progress
PROPERTIES InOrder Gated Became Final BlockHeld FutOnce NoneAfterCancel OneAnswer
CHECK_DEADLOCK FALSE
