SPECIFICATION Spec
VIEW view
CHECK_DEADLOCK FALSE
CONSTANTS
  Length = 8
INVARIANTS OnlyGrammatical OnlyRight Offending Holds
