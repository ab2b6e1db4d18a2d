SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
  W = {"0", "2.5"}
  F = {"-1", "2"}
