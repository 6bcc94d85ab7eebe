SPECIFICATION SpecRun
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
