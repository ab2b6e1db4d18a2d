SPECIFICATION Spec
CONSTANTS MaxRanks = 2
          Iterations = 1
          LocalDecision = TRUE
          Aborts = TRUE
INVARIANT Agree
PROPERTY Terminates
