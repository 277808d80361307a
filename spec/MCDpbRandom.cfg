SPECIFICATION SpecRandom
CONSTANTS M <- EnvM
 MaxRefs = {0, 1, 2, 3, 4, 6, 16}
 Idx = 3
 OpsLimit = 4
 ModLimit = 4
 Depth <- EnvDepth
INVARIANTS Bounded OneOwner OneName BelowTop ListIsRefs Show
CHECK_DEADLOCK FALSE
