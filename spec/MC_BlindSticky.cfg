SPECIFICATION Spec
INVARIANT NeverUnblinded
CONSTANTS
  Procs = {1, 2}
  Nights = {20210513, 20210514, 20210801}
  How = "sticky"
  MaxFiles = 2
