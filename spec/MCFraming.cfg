CONSTANT Alphabet = {0, 1, 3, 9}
CONSTANT MaxLen = 6
INIT Init
NEXT Next
INVARIANTS EscapeOk AnnexBOk AnnexBInverse LengthsInverse LengthsOk StretchOk
CHECK_DEADLOCK FALSE
