SPECIFICATION Spec
CONSTANT Len_ = 12
CONSTANT Rows = {1, 2, 3, 4, 6}
INVARIANT Same
INVARIANT Answers
INVARIANT PairsAnswers
CHECK_DEADLOCK FALSE
