SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Length = 3
  Deep = 2
INVARIANTS Accepted Loads SameBack AnchorsWhereShared
