CONSTANT Prop = "C12"
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
