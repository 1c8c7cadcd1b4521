SPECIFICATION Spec
VIEW view
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = "graphs"
  Length = 4
INVARIANTS TokensRight EventsRight Ends Soon ErrorPlaced StaysEnded GraphFormed
