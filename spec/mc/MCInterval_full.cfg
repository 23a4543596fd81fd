SPECIFICATION Spec
CONSTANTS K = 8
 As = {1,2,3,4,5,6,7,8,9,10,11,12}
 Bs = {1,2,4,5,8,10,20}
 Unit = 1000
 Err = 1
 Eps = 10
INVARIANTS FormOK Right
CHECK_DEADLOCK FALSE
