SPECIFICATION JSpec
CONSTANT Source <- JSource
CHECK_DEADLOCK FALSE
