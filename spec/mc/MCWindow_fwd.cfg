SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NP = 4
 U = 5
 Vel <- VelFwd
 Steps = 12
 Variant = "none"
INVARIANTS Complete Neighbours Content Follows Forward
PROPERTIES Stays Steady
