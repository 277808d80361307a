SPECIFICATION CSpec
VIEW View
INVARIANT IdsInRange
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
