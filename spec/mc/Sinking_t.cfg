SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Length = 6
  Room = 3
INVARIANTS InOrder Complete NothingLost Told
PROPERTIES Whole
