SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N1 = 3 N2 = 3 Kind = "inter" Variant = ""
INVARIANTS Pairing Complete Conserved Others
