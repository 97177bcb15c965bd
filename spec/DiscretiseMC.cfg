SPECIFICATION Spec
CONSTANT Ms = {1, 2, 3, 4, 7, 12}
CONSTANT Nds = {2, 3, 8, 15, 16}
INVARIANT Rounds
INVARIANT Integral
INVARIANT Exact
CHECK_DEADLOCK FALSE
