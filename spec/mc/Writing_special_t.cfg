SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Theme = "special"
  Length = 6
  Deep = 3
INVARIANTS Accepts Refuses Holds AllOut Clean SaysTheSame AtTheEnd
