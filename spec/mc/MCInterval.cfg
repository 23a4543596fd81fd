SPECIFICATION Spec
CONSTANTS K = 6
 As = {1, 2, 3, 4, 5, 7}
 Bs = {1, 2, 4, 5}
 Unit = 1000
 Err = 1
 Eps = 10
INVARIANTS FormOK Right
CHECK_DEADLOCK FALSE
