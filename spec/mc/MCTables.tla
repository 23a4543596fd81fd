---- MODULE MCTables ----
EXTENDS Tables
MCNP == <<3, 2>>
MCPer == <<TRUE, FALSE>>
MCNP3 == <<2, 1, 2>>
MCPer3 == <<FALSE, TRUE, TRUE>>
====
