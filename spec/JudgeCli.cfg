SPECIFICATION JSpec
CHECK_DEADLOCK FALSE
