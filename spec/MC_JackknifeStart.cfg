SPECIFICATION Spec
INVARIANT DealtInTurn
CONSTANTS
  P = 2
  N = 3
  Max = 4
  How = "start"
