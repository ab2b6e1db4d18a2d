SPECIFICATION Spec
CONSTANTS MaxRanks = 2
          Iterations = 1
          LocalDecision = FALSE
          Aborts = FALSE
INVARIANT Agree
PROPERTY Terminates
