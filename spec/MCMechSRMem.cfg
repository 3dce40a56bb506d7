SPECIFICATION MSpec
CONSTANTS
  Cfg <- SRCfg
  Pts <- P
  Srcs <- Sources
  Ress <- ResTwo
  AlgSet <- AlgOne
  Modes <- ModeOne
  AddMeta <- OneMeta
  BadAdds <- NoBad
  MaxOps = 6
  Disk = FALSE
  BUG = ""
INVARIANT MInv
VIEW View
CHECK_DEADLOCK FALSE
