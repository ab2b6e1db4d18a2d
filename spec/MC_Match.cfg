SPECIFICATION Spec
INVARIANT Right
CONSTANT N = 9
