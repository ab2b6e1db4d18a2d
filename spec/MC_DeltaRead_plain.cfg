SPECIFICATION Spec
CONSTANTS How = "plain"
          MaxRounds = 2
INVARIANT StaysBlind
