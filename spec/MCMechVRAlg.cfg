SPECIFICATION MSpec
CONSTANTS
  Cfg <- VRCfg
  Pts <- P
  Srcs <- Sources
  Ress <- ResTwo
  AlgSet <- AlgTwo
  Modes <- ModeOne
  AddMeta <- OneMeta
  BadAdds <- NoBad
  MaxOps = 6
  Disk = TRUE
  BUG = ""
INVARIANT MInv
VIEW View
CHECK_DEADLOCK FALSE
