SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
