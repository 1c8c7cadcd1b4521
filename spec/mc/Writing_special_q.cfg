SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Theme = "special"
  Length = 6
  Deep = 2
INVARIANTS Accepts Refuses Holds AllOut Clean SaysTheSame AtTheEnd
