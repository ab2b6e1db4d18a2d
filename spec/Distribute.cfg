SPECIFICATION Spec
CONSTANTS MaxGroups = 4
          MaxSize = 3
          MaxRanks = 4
INVARIANTS ExactlyOnce BalancedInv NoneIdleInv
