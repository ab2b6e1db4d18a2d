SPECIFICATION Spec
CONSTANTS How = "skip"
          MaxRounds = 2
INVARIANT Accepts
