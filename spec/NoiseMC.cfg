CONSTANT N = 2
CONSTANT MaxE = 3
CONSTANT Ks = 1
SPECIFICATION Spec
INVARIANT Sound
INVARIANT Whole
INVARIANT Quiet
INVARIANT Fair
CHECK_DEADLOCK FALSE
