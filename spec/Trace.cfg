SPECIFICATION Spec
VIEW View
ALIAS Where
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
