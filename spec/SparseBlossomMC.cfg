SPECIFICATION Spec
CONSTANT N = 4
CONSTANT Dist = {2, 4}
CONSTANT BDist = {1000000000}
INVARIANT WellFormed
INVARIANT Feasible
INVARIANT EvenGaps
INVARIANT Optimal
INVARIANT NoFalseEnd
PROPERTY Terminates
CHECK_DEADLOCK FALSE
