SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 NP = 3
 U = 5
 Vel <- VelBoth
 Steps = 6
 Variant = "again"
INVARIANTS Complete Neighbours Content Follows Forward
PROPERTIES Stays Steady
