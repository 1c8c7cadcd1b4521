SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Theme = "props"
  Length = 7
  Deep = 1
INVARIANTS Accepts Refuses Holds AllOut Clean SaysTheSame AtTheEnd
