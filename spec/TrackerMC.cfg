SPECIFICATION Spec
CONSTANT Objs = {0, 1}
CONSTANT Deltas = {0, 1, 2}
CONSTANT Depth = 6
CONSTANT Emit = FALSE
INVARIANT CanPop
INVARIANT Covered
INVARIANT OneLive
CHECK_DEADLOCK FALSE
