SPECIFICATION Spec
CONSTANTS MaxRanks = 5
          Values = {"none", "0", "false", "array"}
          ShareErrors = TRUE
INVARIANT AtEnd
PROPERTY Terminates
