SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N1 = 5 N2 = 1 Kind = "intra" Variant = "open"
INVARIANTS Pairing Complete Conserved Others
