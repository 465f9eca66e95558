SPECIFICATION DSpec
CHECK_DEADLOCK FALSE
