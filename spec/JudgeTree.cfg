SPECIFICATION JSpec
CONSTANT Limit <- JLimit
CHECK_DEADLOCK FALSE
