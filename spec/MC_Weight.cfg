SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
  IV = {"0", "1e-3", "0.5", "1", "7", "1e4"}
  VL = {"0", "0.01", "0.1", "0.3", "2"}
  ETA = {"0.5", "1", "1.7"}
  CONT = {"0.1", "1", "2.5", "40"}
