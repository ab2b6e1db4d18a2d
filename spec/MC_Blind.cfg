SPECIFICATION Spec
INVARIANT NeverUnblinded
INVARIANT PlainWhenFree
INVARIANT HeaderAgrees
INVARIANT Alike
CONSTANTS
  Procs = {1, 2}
  Nights = {20210513, 20210514, 20210801}
  How = "agreed"
  MaxFiles = 2
