SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NP = 4
 U = 5
 Vel <- VelAll
 Steps = 12
 Variant = "none"
INVARIANTS Complete Neighbours Content Follows Forward
PROPERTIES Stays Steady
