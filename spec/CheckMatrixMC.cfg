SPECIFICATION Spec
CONSTANT R = 2
CONSTANT C = 3
CONSTANT W = {1, 3}
CONSTANT Reps = 1
INVARIANT Decodes
CHECK_DEADLOCK FALSE
