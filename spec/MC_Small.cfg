SPECIFICATION MCSpec
CONSTANTS
  N = 4
  BndVals = {0, 1}
  Kinds = {"B", "N"}
  Cards <- MCCards
  ARs = {2}
  Sings = {1, 2}
  LineModes = {0, 1, 2}
INVARIANTS Partition DonePartition AllConnected DoneConnected Cardinalities SeedOnHighestLevel LinesMadeOfPairs CorrectionSound
PROPERTIES Progress
CHECK_DEADLOCK TRUE
