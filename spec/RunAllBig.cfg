SPECIFICATION Spec
CONSTANTS MaxRanks = 4
          Iterations = 3
          LocalDecision = FALSE
          Aborts = TRUE
INVARIANT Agree
PROPERTY Terminates
