SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Length = 4
  Room = 2
INVARIANTS InOrder Complete NothingLost Told
PROPERTIES Whole
