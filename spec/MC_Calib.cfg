SPECIFICATION Spec
INVARIANT NonNegative
INVARIANT Frame
INVARIANT Ratio
INVARIANT Commute
INVARIANT Lower
CONSTANTS
  Vals = {"-1.5", "0", "2"}
  Etas = {"0.5", "1", "3"}
  Sfs = {"0", "0.9", "1.25"}
  Vls = {"0", "0.1"}
