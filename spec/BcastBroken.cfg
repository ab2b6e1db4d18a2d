SPECIFICATION Spec
CONSTANTS MaxRanks = 2
          Values = {"none", "0", "false", "array"}
          ShareErrors = FALSE
INVARIANT AtEnd
PROPERTY Terminates
