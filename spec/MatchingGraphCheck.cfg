SPECIFICATION Spec
CONSTANT N = 3
CONSTANT W = {1}
CONSTANT Bs = {{}, {1}}
CONSTANT Shift = 0
INVARIANT TableIsMinimum
INVARIANT EffShape
INVARIANT LeavesDoNotMatter
INVARIANT AloneAddsUp
INVARIANT ChainsCollapse
CHECK_DEADLOCK FALSE
