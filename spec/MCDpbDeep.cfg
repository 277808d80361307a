SPECIFICATION Spec
CONSTANTS M = 8
 MaxRefs = {0, 1, 2, 3, 4}
 Idx = 2
 OpsLimit = 3
 ModLimit = 0
 Depth = 0
VIEW View
INVARIANTS Bounded OneOwner OneName BelowTop ListIsRefs
CHECK_DEADLOCK FALSE
