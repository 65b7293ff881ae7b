SPECIFICATION MCSpec
CONSTANTS
  Comps = {1}
  MaxCmd = 4
  MaxMsg = 1
  MaxEv = 0
  MaxFut = 1
  MaxTmo = 0
  MaxAdv = 0
  MaxAsk = 0
  MaxNote = 3
  Cmds = {"start", "stop", "kill"}
  Results = {"block", "shutdown"}
  FutResults = {}
  Det = FALSE
  Thr = 2
  MM = 1
  Edges <- NoEdges
  Recov = {}
  UserOps = FALSE
INVARIANTS Once NoneLost DeadIsDead Exclusive FutDone RecoveredOnce RecoveredAll ToldTruth ToldAll RightWay EvLost Batch TmoRight TmoLost AskSettled Progress
PROPERTIES InOrder Gated Became Final BlockHeld FutOnce NoneAfterCancel OneAnswer
CHECK_DEADLOCK FALSE
