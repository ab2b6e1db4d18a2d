SPECIFICATION Spec
CONSTANTS MaxRanks = 3
          Iterations = 2
          LocalDecision = FALSE
          Aborts = TRUE
INVARIANT Agree
PROPERTY Terminates
