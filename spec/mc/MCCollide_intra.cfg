SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N1 = 4 N2 = 1 Kind = "intra" Variant = ""
INVARIANTS Pairing Complete Conserved Others
