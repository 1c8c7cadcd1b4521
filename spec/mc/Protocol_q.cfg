SPECIFICATION Spec
VIEW view
CHECK_DEADLOCK FALSE
CONSTANTS
  Length = 6
INVARIANTS OnlyGrammatical OnlyRight Offending Holds
