SPECIFICATION Spec
CONSTANTS
  FirstBytes <- SomeFirst
  Lengths <- SomeLengths
  MaxVersions = 3
INVARIANTS ReadsBack NothingElse WholeVersions Emit
CHECK_DEADLOCK FALSE
