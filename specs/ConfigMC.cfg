SPECIFICATION Spec
CONSTANTS Keys = {1, 2}
          MaxSources = 3
          Deep = FALSE
INVARIANTS InOrder LastWriter Again
PROPERTIES Untouched
CHECK_DEADLOCK FALSE
