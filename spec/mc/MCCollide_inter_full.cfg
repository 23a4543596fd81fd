SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N1 = 4 N2 = 4 Kind = "inter" Variant = ""
INVARIANTS Pairing Complete Conserved Others
