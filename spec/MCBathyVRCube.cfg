SPECIFICATION Spec
CONSTANTS
  Cfg <- VRCube
  Pts <- PCube
  Srcs <- Sources
  Ress <- ResOne
  AlgSet <- AlgCube
  Modes <- ModeOne
  AddMeta <- OneMeta
  BadAdds <- NoBad
  Pars <- ParsTwo
  MaxOps = 5
INVARIANTS Inv Laws
PROPERTY Frame
VIEW View
CHECK_DEADLOCK FALSE
