SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTRAINT Consumed
POSTCONDITION Accepted
