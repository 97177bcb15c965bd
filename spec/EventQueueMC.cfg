SPECIFICATION Spec
CONSTANT Depth = 5
CONSTANT Deltas = {0, 1, 2, 5}
CONSTANT Emit = FALSE
INVARIANT Conservation
INVARIANT NothingOverdue
INVARIANT InOrder
PROPERTY Monotone
CHECK_DEADLOCK FALSE
