SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Length = 4
INVARIANTS Beginning InTheEnd ErrorThere Exact Exact16 Fit Stuck
