SPECIFICATION Spec
INVARIANT Once
CONSTANTS
  MaxFiles = 5
  MaxP = 6
  How = "all"
