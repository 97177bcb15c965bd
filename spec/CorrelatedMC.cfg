CONSTANT W = {0, 1, 2}
CONSTANT MaxRules = 2
CONSTANT Calls = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Lowered
INVARIANT NeverRaised
INVARIANT Restored
INVARIANT SecondBest
INVARIANT NoRuleNoop
