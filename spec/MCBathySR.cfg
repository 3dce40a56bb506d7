SPECIFICATION Spec
CONSTANTS
  Cfg <- SRCfg
  Pts <- P
  Srcs <- Sources
  Ress <- ResAll
  AlgSet <- AlgBad
  Modes <- ModeTwo
  AddMeta <- OneMeta
  BadAdds <- Bads
  MaxOps = 5
INVARIANTS Inv Laws
PROPERTY Frame
VIEW View
CHECK_DEADLOCK FALSE
