SPECIFICATION Spec
INVARIANT NoLeak
CONSTANT Late = TRUE
