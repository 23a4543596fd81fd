SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS G <- MCG
 RankMaps <- MCRanks
 Inits <- MCInitsAll
 NS = 2
INVARIANTS Correct NothingLeftOver NoDeadlock
