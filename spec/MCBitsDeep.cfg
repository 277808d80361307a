CONSTANT Top = 20000
CONSTANT TopN = 300
INIT Init
NEXT Next
INVARIANTS UeInverse UePrefix SeInverse NsInverse FixedInverse
CHECK_DEADLOCK FALSE
