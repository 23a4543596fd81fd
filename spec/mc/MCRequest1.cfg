SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NR = 1
 NSpec = 2
 Requests = {"none","sync","sync2","startwait"}
INVARIANTS UsedComplete NeverTwice NoneInFlight NoDeadlock RequestComplete
