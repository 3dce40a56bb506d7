INIT GInit
NEXT GNext
CONSTANTS
  Cfg <- SRCfg
  Pts <- P
  Srcs <- SourcesVar
  Ress <- ResOne
  AlgSet <- AlgOne
  Modes <- ModeOne
  AddMeta <- Metas
  BadAdds <- Bads
  MaxOps = 4
VIEW View
CHECK_DEADLOCK FALSE
