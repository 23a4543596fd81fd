SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NP <- MCNP
 Per <- MCPer
 NRank = 2
 MaxOps = 1
INVARIANTS OwnedOnce Rectangular NobodyEmpty Mutual Edge
