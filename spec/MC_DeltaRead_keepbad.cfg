SPECIFICATION Spec
CONSTANTS How = "keepbad"
          MaxRounds = 2
INVARIANT SameSightlines
