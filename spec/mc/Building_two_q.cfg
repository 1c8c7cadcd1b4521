SPECIFICATION Spec
VIEW view
CHECK_DEADLOCK FALSE
CONSTANTS
  Length = 4
  Documents = 2
  Most = 2
INVARIANTS Consistent
PROPERTIES Grows Apart AtTheEnd
