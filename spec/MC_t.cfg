SPECIFICATION Spec
INVARIANT Refines
VIEW CoverView
CHECK_DEADLOCK FALSE
CONSTANTS
 Kind = "axis"
 LF = 1
 LB = 0
 SLF = 1
 SLB = 0
 MaxQ = 2
 NId = 6
 HR = TRUE
 Mon = FALSE
 Acts = {"pause", "kpause", "clear", "kclear", "rst", "wait", "block"}
 Judge = FALSE
