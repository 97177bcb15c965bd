SPECIFICATION Spec
CONSTANT Prop = "C01"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
