SPECIFICATION Spec
CONSTANTS
  FirstBytes <- MoreFirst
  Lengths <- MoreLengths
  MaxVersions = 2
INVARIANTS ReadsBack NothingElse WholeVersions Emit
CHECK_DEADLOCK FALSE
