INIT GInit
NEXT GNext
CONSTANTS
  Cfg <- VRCfg
  Pts <- P
  Srcs <- Sources
  Ress <- ResTwo
  AlgSet <- AlgOne
  Modes <- ModeOne
  AddMeta <- OneMeta
  BadAdds <- NoBad
  MaxOps = 5
  Disk = TRUE
  BUG = ""
VIEW View
CHECK_DEADLOCK FALSE
