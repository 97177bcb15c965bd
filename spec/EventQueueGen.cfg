SPECIFICATION Spec
CONSTANT Depth = 5
CONSTANT Deltas = {0, 1, 2, 5}
CONSTANT Emit = TRUE
VIEW View
INVARIANT EmitAll
CHECK_DEADLOCK FALSE
