SPECIFICATION Spec
VIEW view
CHECK_DEADLOCK FALSE
CONSTANTS
  Length = 6
  Documents = 1
  Most = 3
INVARIANTS Consistent
PROPERTIES Grows Apart AtTheEnd
