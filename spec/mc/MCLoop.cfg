SPECIFICATION Spec
CONSTANTS NS = 2
 MaxCb = 2
 MaxRuns = 2
 MaxN = 2
 MaxTog = 1
 Variant = "none"
 StagePool = {"init", "start", "_qed", "current_deposition", "", "final"}
INVARIANTS Ordered Complete FrozenSkipped Additive StopExact
CHECK_DEADLOCK FALSE
