SPECIFICATION PSpec
CHECK_DEADLOCK FALSE
