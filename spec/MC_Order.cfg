SPECIFICATION Spec
INVARIANT NoLeak
CONSTANT Late = FALSE
