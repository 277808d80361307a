CONSTANT Top = 700
CONSTANT TopN = 40
INIT Init
NEXT Next
INVARIANTS UeInverse UePrefix SeInverse NsInverse FixedInverse
CHECK_DEADLOCK FALSE
