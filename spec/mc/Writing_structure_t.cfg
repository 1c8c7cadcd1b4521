SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Theme = "structure"
  Length = 13
  Deep = 1
INVARIANTS Accepts Refuses Holds AllOut Clean SaysTheSame AtTheEnd
