SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Theme = "breaks"
  Length = 7
  Deep = 3
INVARIANTS Accepts Refuses Holds AllOut Clean SaysTheSame AtTheEnd
