SPECIFICATION Spec
CONSTANT Objs = {0, 1}
CONSTANT Deltas = {0, 1, 2}
CONSTANT Depth = 5
CONSTANT Emit = TRUE
VIEW View
INVARIANT EmitAll
CHECK_DEADLOCK FALSE
