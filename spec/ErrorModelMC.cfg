SPECIFICATION Spec
CONSTANT Len_ = 2
CONSTANT A = {0, 3, 16}
INVARIANT OddNumber
INVARIANT OrderIsOfNoAccount
INVARIANT Sound
CHECK_DEADLOCK FALSE
