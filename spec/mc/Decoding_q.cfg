SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Length = 3
INVARIANTS Beginning InTheEnd ErrorThere Exact Exact16 Fit Stuck
