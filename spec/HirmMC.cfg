SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Model = "pair"
  MaxObs = 2
  Lemmas = TRUE
INVARIANTS TypeOK Formed Undo Visit Covered GibbsIsJoint PredIsJoint LatentIsJoint RelIsJoint ShowState
ACTION_CONSTRAINT ShowStep
