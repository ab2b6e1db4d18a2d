SPECIFICATION Spec
CONSTANTS How = "right"
          MaxRounds = 2
INVARIANT Accepts
INVARIANT SameSightlines
INVARIANT StaysBlind
