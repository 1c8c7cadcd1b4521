SPECIFICATION Spec
VIEW view
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = "props"
  Length = 3
INVARIANTS TokensRight EventsRight Ends Soon ErrorPlaced StaysEnded GraphFormed
