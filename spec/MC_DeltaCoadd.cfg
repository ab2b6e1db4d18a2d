SPECIFICATION Spec
INVARIANT Once
INVARIANT Single
INVARIANT Blinded
INVARIANT Range
INVARIANT Commutes
CONSTANTS
  Targets = {1, 2}
  Vals = {"-0.5", "0.25"}
  Wts = {"0", "1", "3"}
  MaxN = 2
