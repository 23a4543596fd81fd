SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N1 = 3 N2 = 3 Kind = "inter" Variant = "cut"
INVARIANTS Pairing Complete Conserved Others
