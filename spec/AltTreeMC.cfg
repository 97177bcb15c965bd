SPECIFICATION Spec
CONSTANT Nodes = 3
CONSTANT Roots = 2
INVARIANT WellFormed RerootAlternates AncestorIsLowest PruneKeepsTheRest
CHECK_DEADLOCK FALSE
