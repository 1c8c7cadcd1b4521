SPECIFICATION Spec
VIEW view
CHECK_DEADLOCK FALSE
POSTCONDITION Report
