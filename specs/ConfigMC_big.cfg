SPECIFICATION Spec
CONSTANTS Keys = {1}
          MaxSources = 5
          Deep = TRUE
INVARIANTS InOrder LastWriter Again
PROPERTIES Untouched
CHECK_DEADLOCK FALSE
