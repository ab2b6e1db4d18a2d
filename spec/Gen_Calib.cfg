SPECIFICATION Spec
CONSTANTS MaxFiles = 4
 MaxRanks = 4
