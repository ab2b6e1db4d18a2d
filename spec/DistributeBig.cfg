SPECIFICATION Spec
CONSTANTS MaxGroups = 5
          MaxSize = 4
          MaxRanks = 4
INVARIANTS ExactlyOnce BalancedInv NoneIdleInv
