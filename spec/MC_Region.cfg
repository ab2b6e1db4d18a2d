SPECIFICATION Spec
CONSTANTS N = 5
          Limits = {0, 2, 3, 4, 7, 8, 10, 11, 13}
          Rounds = 2
INVARIANT Exact
