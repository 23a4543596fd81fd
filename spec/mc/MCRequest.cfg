SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NR = 2
 NSpec = 2
 Requests = {"none","sync","sync2"}
INVARIANTS UsedComplete NeverTwice NoneInFlight NoDeadlock RequestComplete
