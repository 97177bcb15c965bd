SPECIFICATION Spec
VIEW View
CONSTANT N = 2
CONSTANT A16 = {2, 8}
CONSTANT Strats = {0, 1, 2, 3, 4}
CONSTANT Depth = 2
CONSTANT ProbFam = TRUE
INVARIANT Shape
INVARIANT Symmetric
INVARIANT LastCounts
INVARIANT MergeOrder
INVARIANT Rebuilt
PROPERTY Grows
CHECK_DEADLOCK FALSE
