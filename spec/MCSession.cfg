SPECIFICATION MSpec
VIEW View
INVARIANTS IdsInRange RoutesAgree Idempotent ContextFree Show
PROPERTY Steps
CHECK_DEADLOCK FALSE
