SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NP <- MCNP3
 Per <- MCPer3
 NRank = 2
 MaxOps = 2
INVARIANTS OwnedOnce Rectangular NobodyEmpty Mutual Edge
