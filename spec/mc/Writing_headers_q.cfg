SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Theme = "headers"
  Length = 8
  Deep = 1
INVARIANTS Accepts Refuses Holds AllOut Clean SaysTheSame AtTheEnd
