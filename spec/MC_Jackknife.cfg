SPECIFICATION Spec
INVARIANT MeanOfEverything
INVARIANT DealtInTurn
INVARIANT NonNegative
INVARIANT ConstantHasNone
CONSTANTS
  P = 2
  N = 3
  Max = 4
  How = "right"
