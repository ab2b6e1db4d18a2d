SPECIFICATION Spec
INVARIANT Once
CONSTANTS
  Procs = {1, 2}
  Specs = {1, 2, 3}
  Pixels = {7, 8}
  Arms = {"B", "R"}
  Split = TRUE
