INIT GInit
NEXT GNext
CONSTANTS
  Cfg <- SRCfg
  Pts <- P
  Srcs <- Sources
  Ress <- ResAll
  AlgSet <- AlgBad
  Modes <- ModeOne
  AddMeta <- OneMeta
  BadAdds <- NoBad
  MaxOps = 5
VIEW View
CHECK_DEADLOCK FALSE
