SPECIFICATION Spec
CONSTANTS M = 4
 MaxRefs = {0, 1, 2, 3}
 Idx = 1
 OpsLimit = 3
 ModLimit = 0
 Depth = 0
VIEW View
INVARIANTS Bounded OneOwner OneName BelowTop ListIsRefs
CHECK_DEADLOCK FALSE
