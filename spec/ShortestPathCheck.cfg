SPECIFICATION Spec
CONSTANT N = 3
CONSTANT W = {0, 2}
INVARIANT DistancesRight BoundaryDistancesRight
CHECK_DEADLOCK FALSE
